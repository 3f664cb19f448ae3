// Serial tessellation driver: one request per input line, one record per request.
//   tess IN OUT [start]
// Line:  <id> <op> ...
//   unb  <pts>                      unbounded
//   box  <pts> <low2> <high2>       rectangle
//   plc  <pts> <plcpts> <PLC>       PLC
//   rplc <pts> <plcpts> <PLC>       ReducedPLC
//   dunb/dbox/dplc/drplc            degenerate versions: a tolerance follows <pts>
#include "mpi.h"
#include "vpmesh.hh"
using namespace polytope;
using namespace vp;

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  std::ifstream f(argv[1]);
  FILE* out = fopen(argv[2], "a");
  long start = argc > 3 ? atol(argv[3]) : 0;
  std::string line;
  // Slots 0, 2, 3, ... are tessellators that live as long as the process; the
  // slots from 2 on also reuse one mesh object each.  1 stands for new objects.
  std::map<long, BoostTessellator<double>*> slots;
  std::map<long, Tessellation<2, double>*> meshes;
  for (long k = 0; std::getline(f, line); ++k) {
    if (k < start) continue;
    In in(line);
    std::string id = in.word(), op = in.word();
    const long slot = in.integer();
    BoostTessellator<double> own;
    if (slot != 1 && !slots.count(slot)) slots[slot] = new BoostTessellator<double>();
    Tessellator<2, double>& t = slot == 1 ? (Tessellator<2, double>&)own : *slots[slot];
    Tessellation<2, double> ownMesh;
    if (slot > 1 && !meshes.count(slot)) meshes[slot] = new Tessellation<2, double>();
    Tessellation<2, double>& mesh = slot > 1 ? *meshes[slot] : ownMesh;
    mesh.clear();
    std::vector<double> pts = in.reals();
    const std::vector<double> pts0(pts);
    bool deg = op[0] == 'd';
    if (deg) op = op.substr(1);
    const double tol = deg ? in.real() : 0.0;
    std::vector<unsigned> map;
    bool inputsKept = true;
    { Out b; b.kv("id", id); b.kv("ev", "begin"); emit(out, b.done()); }
    if (op == "unb") {
      if (deg) map = t.tessellateDegenerate(pts, tol, mesh); else t.tessellate(pts, mesh);
    } else if (op == "box") {
      std::vector<double> lo = in.reals(), hi = in.reals();
      const std::vector<double> lo0(lo), hi0(hi);
      if (deg) map = t.tessellateDegenerate(pts, &lo[0], &hi[0], tol, mesh); else t.tessellate(pts, &lo[0], &hi[0], mesh);
      inputsKept = lo == lo0 && hi == hi0;
    } else if (op == "plc") {
      std::vector<double> pp = in.reals();
      PLC<2, double> plc; readPLC(in, plc);
      const std::vector<double> pp0(pp); const PLC<2, double> plc0(plc);
      if (deg) map = t.tessellateDegenerate(pts, pp, plc, tol, mesh); else t.tessellate(pts, pp, plc, mesh);
      inputsKept = pp == pp0 && plc.facets == plc0.facets && plc.holes == plc0.holes;
    } else if (op == "rplc") {
      ReducedPLC<2, double> plc;
      plc.points = in.reals(); readPLC<2>(in, plc);
      const ReducedPLC<2, double> plc0(plc);
      if (deg) map = t.tessellateDegenerate(pts, plc, tol, mesh); else t.tessellate(pts, plc, mesh);
      inputsKept = plc.points == plc0.points && plc.facets == plc0.facets && plc.holes == plc0.holes;
    } else in.die();
    inputsKept = inputsKept && pts == pts0;
    Out o;
    o.kv("id", id); o.kv("ev", "end");
    o.kv("inputsKept", inputsKept);
    o.kv("map", map);
    writeMesh(o, mesh);
    emit(out, o.done());
  }
  fclose(out);
  MPI_Finalize();
  return 0;
}
