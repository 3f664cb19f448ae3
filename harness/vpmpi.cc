// Stand-ins for the MPI calls of the library.  Each records what it does and
// may be slowed down; sends can be turned into rendezvous sends, so that a
// message is not buffered by the network.
#include "mpi.h"
#include "vpmpi.hh"
#include <cstdint>
#include <unistd.h>

namespace vp {
Mpi g_mpi;

static std::string hash(const void* p, size_t n) {
  uint64_t h = 1469598103934665603ull;
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i != n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  char b[24]; snprintf(b, 24, "%016llx", (unsigned long long)h);
  return b;
}
static size_t bytes(int n, MPI_Datatype t) { int s; PMPI_Type_size(t, &s); return (size_t)n * s; }
static void pause_() {
  if (!g_mpi.delay) return;
  g_mpi.rnd = g_mpi.rnd * 6364136223846793005ull + 1442695040888963407ull;
  unsigned k = (g_mpi.rnd >> 33) % 8;
  if (k < 2) usleep(((g_mpi.rnd >> 40) % 1500) * g_mpi.delay);
}
static void note(Ev e) { if (g_mpi.on) g_mpi.log.push_back(e); }

void Mpi::begin(int mode, unsigned seed) {
  int rank; PMPI_Comm_rank(MPI_COMM_WORLD, &rank);
  log.clear(); open.clear(); pending.clear();
  rendezvous = mode & 1; delay = (mode & 2) ? 1 : 0;
  rnd = 88172645463325252ull * (2 * seed + 1) + 7919 * rank;
  on = true; next = 1;
}
void Mpi::end() { on = false; }
}

using namespace vp;

static void started(const char* kind, const void* buf, size_t n, int peer, int tag, MPI_Request* r) {
  Ev e; e.k = kind; e.peer = peer; e.tag = tag; e.n = n; e.h = hash(buf, n); e.r = g_mpi.next++;
  note(e);
  Pending p; p.buf = buf; p.n = n; p.h = e.h; p.id = e.r; p.handle = *r;
  g_mpi.pending.push_back(p);
}

static int finish(MPI_Request* r, MPI_Status* st, int (*fn)(MPI_Request*, MPI_Status*)) {
  // The content is hashed after completion: until then it must not change.
  int id = 0; bool recv = false; bool same = true; size_t k = 0;
  for (; k != g_mpi.pending.size(); ++k) if (g_mpi.pending[k].handle == *r) break;
  const bool null = *r == MPI_REQUEST_NULL;
  const bool have = !null && k != g_mpi.pending.size();
  Pending p; if (have) { p = g_mpi.pending[k]; id = p.id; recv = p.recv; }
  MPI_Status local;
  int rc = fn(r, &local);
  if (st != MPI_STATUS_IGNORE) *st = local;
  if (have) {
    Ev e; e.k = "wait"; e.r = id; e.peer = -1;
    if (recv) {
      int got; PMPI_Get_count(&local, MPI_BYTE, &got);
      e.k = "recv"; e.peer = local.MPI_SOURCE; e.tag = local.MPI_TAG; e.n = got; e.cap = p.n; e.h = hash(p.buf, got);
    } else e.same = hash(p.buf, p.n) == p.h;
    note(e);
    g_mpi.pending.erase(g_mpi.pending.begin() + k);
  } else if (!null && g_mpi.on) {
    Ev e; e.k = "stray"; note(e);     // a request that nothing here started
  }
  return rc;
}

extern "C" {

int MPI_Isend(const void* buf, int n, MPI_Datatype t, int to, int tag, MPI_Comm c, MPI_Request* r) {
  if (!g_mpi.on) return PMPI_Isend(buf, n, t, to, tag, c, r);
  pause_();
  int rc = g_mpi.rendezvous ? PMPI_Issend(buf, n, t, to, tag, c, r) : PMPI_Isend(buf, n, t, to, tag, c, r);
  started("isend", buf, bytes(n, t), to, tag, r);
  return rc;
}

int MPI_Issend(const void* buf, int n, MPI_Datatype t, int to, int tag, MPI_Comm c, MPI_Request* r) {
  int rc = PMPI_Issend(buf, n, t, to, tag, c, r);
  if (g_mpi.on) started("isend", buf, bytes(n, t), to, tag, r);
  return rc;
}

static int blockingSend(const void* buf, int n, MPI_Datatype t, int to, int tag, MPI_Comm c, bool sync) {
  if (!g_mpi.on) return PMPI_Send(buf, n, t, to, tag, c);
  pause_();
  Ev e; e.k = "send"; e.peer = to; e.tag = tag; e.n = bytes(n, t); e.h = hash(buf, e.n); note(e);
  return g_mpi.rendezvous || sync ? PMPI_Ssend(buf, n, t, to, tag, c) : PMPI_Send(buf, n, t, to, tag, c);
}
int MPI_Send(const void* buf, int n, MPI_Datatype t, int to, int tag, MPI_Comm c) { return blockingSend(buf, n, t, to, tag, c, false); }
int MPI_Ssend(const void* buf, int n, MPI_Datatype t, int to, int tag, MPI_Comm c) { return blockingSend(buf, n, t, to, tag, c, true); }

int MPI_Recv(void* buf, int n, MPI_Datatype t, int from, int tag, MPI_Comm c, MPI_Status* st) {
  if (!g_mpi.on) return PMPI_Recv(buf, n, t, from, tag, c, st);
  pause_();
  MPI_Status local;
  int rc = PMPI_Recv(buf, n, t, from, tag, c, &local);
  if (st != MPI_STATUS_IGNORE) *st = local;
  int got; PMPI_Get_count(&local, MPI_BYTE, &got);
  Ev e; e.k = "recv"; e.peer = local.MPI_SOURCE; e.tag = local.MPI_TAG; e.n = got; e.cap = bytes(n, t); e.h = hash(buf, got); note(e);
  return rc;
}

int MPI_Irecv(void* buf, int n, MPI_Datatype t, int from, int tag, MPI_Comm c, MPI_Request* r) {
  int rc = PMPI_Irecv(buf, n, t, from, tag, c, r);
  if (g_mpi.on) {
    pause_();
    Pending p; p.buf = buf; p.n = bytes(n, t); p.id = g_mpi.next++; p.handle = *r; p.recv = true;
    Ev e; e.k = "irecv"; e.r = p.id; e.n = p.n; e.peer = from; e.tag = tag; note(e);
    g_mpi.pending.push_back(p);
  }
  return rc;
}

int MPI_Wait(MPI_Request* r, MPI_Status* st) {
  if (!g_mpi.on) return PMPI_Wait(r, st);
  pause_();
  return finish(r, st, PMPI_Wait);
}

int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) {
  if (!g_mpi.on) return PMPI_Waitall(n, r, st);
  pause_();
  // Complete in order: equivalent to waiting for all of them at once.
  for (int i = 0; i != n; ++i) finish(r + i, st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i, PMPI_Wait);
  return MPI_SUCCESS;
}

int MPI_Bcast(void* buf, int n, MPI_Datatype t, int root, MPI_Comm c) {
  if (!g_mpi.on) return PMPI_Bcast(buf, n, t, root, c);
  pause_();
  int rc = PMPI_Bcast(buf, n, t, root, c);
  Ev e; e.k = "bcast"; e.peer = root; e.n = bytes(n, t); e.h = hash(buf, e.n); note(e);
  return rc;
}

int MPI_Allreduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  if (!g_mpi.on) return PMPI_Allreduce(a, b, n, t, op, c);
  pause_();
  int rc = PMPI_Allreduce(a, b, n, t, op, c);
  Ev e; e.k = "allreduce"; e.peer = -1; e.n = bytes(n, t); e.h = hash(b, e.n); note(e);
  return rc;
}

int MPI_Barrier(MPI_Comm c) {
  if (!g_mpi.on) return PMPI_Barrier(c);
  pause_();
  int rc = PMPI_Barrier(c);
  Ev e; e.k = "barrier"; e.peer = -1; note(e);
  return rc;
}

}
