// Mesh editing driver: builds a mesh, then applies a history of edits to it.
//   edit IN OUT [start]
// Line: <id> <op> 1 <pts> [<low2> <high2> | <plcpts> <PLC>] <steps>
//   (as for tess), or <id> mesh <dimension> <mesh> <steps> for a mesh that is
//   given; then the steps, each one of
//   share <n> { <domain> <nodes> <faces> }     what the mesh shares with other domains
//   mask <mask>                                deleteCells(mesh, mask)
//   list <cells>                               MeshEditor::deleteCells
//   clean <tol>                                MeshEditor::cleanEdges
// A record holds the mesh before the first and after every step, and the
// neighbours-of views of the last one.
#include "mpi.h"
#include "vpmesh.hh"
#include "deleteCells.hh"
#include "MeshEditor.hh"
using namespace polytope;
using namespace vp;

template<int D>
static void edits(In& in, Tessellation<D, double>& mesh, Out& o) {
  const int n = in.integer();
  o.key("meshes"); o.s << "[";
  MeshEditor<D, double> editor(mesh);
  for (int i = 0; i <= n; ++i) {
    if (i > 0) {
      std::string what = in.word();
      if (what == "share") {
        int nn = in.integer();
        mesh.neighborDomains.clear(); mesh.sharedNodes.clear(); mesh.sharedFaces.clear();
        for (int j = 0; j != nn; ++j) {
          mesh.neighborDomains.push_back(in.integer());
          mesh.sharedNodes.push_back(in.unsigneds());
          mesh.sharedFaces.push_back(in.unsigneds());
        }
      } else if (what == "mask") {
        std::vector<unsigned> m = in.unsigneds();
        deleteCells(mesh, m);
      } else if (what == "list") {
        std::vector<unsigned> m = in.unsigneds();
        editor.deleteCells(m);
      } else if (what == "clean") {
        editor.cleanEdges(in.real());
      } else in.die();
      o.s << ",";
    }
    Out m; writeMesh(m, mesh);
    o.s << m.s.str() << "}";
  }
  o.s << "]";
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  std::ifstream f(argv[1]);
  FILE* out = fopen(argv[2], "a");
  long start = argc > 3 ? atol(argv[3]) : 0;
  std::string line;
  for (long k = 0; std::getline(f, line); ++k) {
    if (k < start) continue;
    In in(line);
    std::string id = in.word(), op = in.word();
    const int dim = in.integer();
    { Out b; b.kv("id", id); b.kv("ev", "begin"); emit(out, b.done()); }
    Out o;
    o.kv("id", id); o.kv("ev", "end");
    if (op == "mesh" and dim == 3) {
      Tessellation<3, double> mesh;
      readMesh<3>(in, mesh);
      edits<3>(in, mesh, o);
      emit(out, o.done());
      continue;
    }
    BoostTessellator<double> t;
    Tessellation<2, double> mesh;
    if (op == "mesh") readMesh<2>(in, mesh);
    else {
      std::vector<double> pts = in.reals();
      if (op == "unb") t.tessellate(pts, mesh);
      else if (op == "box") {
        std::vector<double> lo = in.reals(), hi = in.reals();
        t.tessellate(pts, &lo[0], &hi[0], mesh);
      } else if (op == "plc") {
        std::vector<double> pp = in.reals(); PLC<2, double> plc; readPLC(in, plc);
        t.tessellate(pts, pp, plc, mesh);
      } else if (op == "rplc") {
        ReducedPLC<2, double> plc; plc.points = in.reals(); readPLC<2>(in, plc);
        t.tessellate(pts, plc, mesh);
      } else in.die();
    }
    edits<2>(in, mesh, o);
    emit(out, o.done());
  }
  fclose(out);
  MPI_Finalize();
  return 0;
}
