#ifndef VPMESH_HH
#define VPMESH_HH
#include "polytope.hh"
#include "vpio.hh"
namespace vp {

template<int D>
void readPLC(In& in, polytope::PLC<D, double>& plc) {
  int nf = in.integer();
  plc.facets.resize(nf);
  for (int i = 0; i != nf; ++i) plc.facets[i] = in.ints();
  int nh = in.integer();
  plc.holes.resize(nh);
  for (int h = 0; h != nh; ++h) {
    int n = in.integer();
    plc.holes[h].resize(n);
    for (int i = 0; i != n; ++i) plc.holes[h][i] = in.ints();
  }
}

template<int D>
void writePLC(Out& o, const char* k, const polytope::PLC<D, double>& plc) {
  o.key(k);
  o.s << "{\"facets\":"; o.val(plc.facets);
  o.s << ",\"holes\":"; o.val(plc.holes); o.s << "}";
}

template<int D>
void readMesh(In& in, polytope::Tessellation<D, double>& m) {
  m.nodes = in.reals();
  int n = in.integer(); m.faces.resize(n);
  for (int i = 0; i != n; ++i) m.faces[i] = in.unsigneds();
  n = in.integer(); m.cells.resize(n);
  for (int i = 0; i != n; ++i) m.cells[i] = in.ints();
  n = in.integer(); m.faceCells.resize(n);
  for (int i = 0; i != n; ++i) m.faceCells[i] = in.ints();
  m.boundaryNodes = in.unsigneds();
  m.boundaryFaces = in.unsigneds();
  m.neighborDomains = in.unsigneds();
  n = in.integer(); m.sharedNodes.resize(n);
  for (int i = 0; i != n; ++i) m.sharedNodes[i] = in.unsigneds();
  n = in.integer(); m.sharedFaces.resize(n);
  for (int i = 0; i != n; ++i) m.sharedFaces[i] = in.unsigneds();
}

template<int D>
void writeMesh(Out& o, const polytope::Tessellation<D, double>& m) {
  o.kv("nodes", m.nodes);
  o.kv("faces", m.faces);
  o.kv("cells", m.cells);
  o.kv("faceCells", m.faceCells);
  o.kv("bnodes", m.boundaryNodes);
  o.kv("bfaces", m.boundaryFaces);
  o.kv("neighbors", m.neighborDomains);
  o.kv("sharedNodes", m.sharedNodes);
  o.kv("sharedFaces", m.sharedFaces);
  writePLC<D>(o, "hull", m.convexHull);
}
}
#endif
