#ifndef VPMPI_HH
#define VPMPI_HH
#include "mpi.h"
#include "vpio.hh"
namespace vp {
struct Ev {
  std::string k, h; int peer, tag, r; size_t n, cap; bool same;
  Ev(): peer(-1), tag(-1), r(0), n(0), cap(0), same(true) {}
};
struct Pending {
  const void* buf; size_t n; std::string h; int id; MPI_Request handle; bool recv;
  Pending(): buf(0), n(0), id(0), recv(false) {}
};
struct Mpi {
  bool on, rendezvous; int delay; unsigned long long rnd; int next;
  std::vector<Ev> log; std::vector<int> open; std::vector<Pending> pending;
  Mpi(): on(false), rendezvous(false), delay(0), rnd(1), next(1) {}
  void begin(int mode, unsigned seed);
  void end();
  void write(Out& o, const char* key) {
    o.key(key); o.s << "[";
    for (size_t i = 0; i != log.size(); ++i) {
      const Ev& e = log[i];
      o.s << (i ? "," : "") << "{\"k\":\"" << e.k << "\",\"p\":" << e.peer << ",\"t\":" << e.tag << ",\"n\":" << e.n
          << ",\"c\":" << e.cap << ",\"h\":\"" << e.h << "\",\"r\":" << e.r << ",\"s\":" << (e.same ? "true" : "false") << "}";
    }
    o.s << "]";
  }
};
extern Mpi g_mpi;
}
#endif
