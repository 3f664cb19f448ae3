// Distributed tessellation driver: mpirun -n P dist IN OUT [start]
// Line: <id> <algo> <mode> <seed> <comm> <op> <pts> <owners> [<low2> <high2> | <plcpts> <PLC>]
//   algo  dist (DistributedTessellator) or repl (SerialDistributedTessellator)
//   mode  bit 0: rendezvous sends, bit 1: random delays
//   comm  build communication data?
//   A trailing tolerance has MeshEditor::cleanEdges clean the mesh; the record
//   then also holds the mesh after that.
//   <id> check <mode> <seed> <comm> { <nodes> <neighbors> <nlists> <list>... } for every rank
//   gives the built-in consistency check what the ranks claim to share.
// Rank r writes OUT.r.
#include "mpi.h"
#include "vpmesh.hh"
#include "vpmpi.hh"
#include "checkDistributedTessellation.hh"
#include "MeshEditor.hh"
using namespace polytope;
using namespace vp;

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  int rank, np;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  MPI_Comm_size(MPI_COMM_WORLD, &np);
  std::ifstream f(argv[1]);
  char name[32]; snprintf(name, 32, ".%d", rank);
  FILE* out = fopen((std::string(argv[2]) + name).c_str(), "a");
  long start = argc > 3 ? atol(argv[3]) : 0;
  std::string line;
  for (long k = 0; std::getline(f, line); ++k) {
    if (k < start) continue;
    In in(line);
    std::string id = in.word(), algo = in.word();
    int mode = in.integer(); unsigned seed = in.integer(); bool comm = in.integer();
    if (algo == "check") {
      Tessellation<2, double> mesh;
      for (int r = 0; r != np; ++r) {
        std::vector<double> nodes = in.reals();
        std::vector<unsigned> nb = in.unsigneds();
        std::vector<std::vector<unsigned> > lists(in.integer());
        for (size_t i = 0; i != lists.size(); ++i) lists[i] = in.unsigneds();
        if (r == rank) { mesh.nodes = nodes; mesh.neighborDomains = nb; mesh.sharedNodes = lists; mesh.sharedFaces.resize(nb.size()); }
      }
      { Out b; b.kv("id", id); b.kv("ev", "begin"); emit(out, b.done()); }
      MPI_Barrier(MPI_COMM_WORLD);
      g_mpi.begin(mode, seed);
      std::string verdict = checkDistributedTessellation(mesh);
      g_mpi.end();
      MPI_Barrier(MPI_COMM_WORLD);
      Out o;
      o.kv("id", id); o.kv("ev", "end"); o.kv("rank", rank);
      o.kv("unfinished", (int)g_mpi.pending.size());
      o.kv("verdict", verdict);
      g_mpi.write(o, "log");
      emit(out, o.done());
      continue;
    }
    std::string op = in.word();
    std::vector<double> all = in.reals(), pts;
    std::vector<int> owner = in.ints();
    for (size_t i = 0; i != owner.size(); ++i)
      if (owner[i] == rank) { pts.push_back(all[2*i]); pts.push_back(all[2*i+1]); }
    { Out b; b.kv("id", id); b.kv("ev", "begin"); emit(out, b.done()); }
    MPI_Barrier(MPI_COMM_WORLD);
    Tessellation<2, double> mesh;
    Tessellator<2, double>* t = algo == "dist" ?
      (Tessellator<2, double>*) new DistributedTessellator<2, double>(new BoostTessellator<double>(), true, comm) :
      (Tessellator<2, double>*) new SerialDistributedTessellator<2, double>(new BoostTessellator<double>(), true, comm);
    const std::vector<double> pts0(pts);
    g_mpi.begin(mode, seed);
    if (op == "unb") t->tessellate(pts, mesh);
    else if (op == "box") {
      std::vector<double> lo = in.reals(), hi = in.reals();
      t->tessellate(pts, &lo[0], &hi[0], mesh);
    } else if (op == "plc") {
      std::vector<double> pp = in.reals(); PLC<2, double> plc; readPLC(in, plc);
      t->tessellate(pts, pp, plc, mesh);
    } else if (op == "rplc") {
      ReducedPLC<2, double> plc; plc.points = in.reals(); readPLC<2>(in, plc);
      t->tessellate(pts, plc, mesh);
    } else in.die();
    g_mpi.end();
    std::string verdict = "ok";
    int left = 0;
    MPI_Barrier(MPI_COMM_WORLD);
    MPI_Status st; MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &left, &st);
    if (comm && np > 1) verdict = checkDistributedTessellation(mesh);
    delete t;
    Out o;
    o.kv("id", id); o.kv("ev", "end"); o.kv("rank", rank);
    o.kv("left", left != 0);
    o.kv("unfinished", (int)g_mpi.pending.size());
    o.kv("kept", pts == pts0);
    o.kv("verdict", verdict);
    writeMesh(o, mesh);
    g_mpi.write(o, "log");
    if (in.more()) {
      const double tol = in.real();
      MeshEditor<2, double> editor(mesh);
      g_mpi.begin(mode, seed);
      editor.cleanEdges(tol);
      g_mpi.end();
      MPI_Barrier(MPI_COMM_WORLD);
      int over = 0;
      MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &over, &st);
      std::string after = comm && np > 1 ? checkDistributedTessellation(mesh) : "ok";
      o.key("cleaned"); Out m;
      m.kv("left", over != 0);
      m.kv("unfinished", (int)g_mpi.pending.size());
      m.kv("verdict", after);
      writeMesh(m, mesh);
      g_mpi.write(m, "log");
      o.s << m.s.str() << "}";
    }
    emit(out, o.done());
  }
  fclose(out);
  MPI_Finalize();
  return 0;
}
