// Mesh and outline objects: histories of operations on them, the views derived
// from them, and the helpers that make outlines.
#include "polytope.hh"
#include "findBoundaryElements.hh"
#include "makeBoxPLC.hh"
#include "removeElements.hh"
#include "polytope_plc_canned_geometries.hh"
#include "vpio.hh"
#include "vpmesh.hh"
#include <mpi.h>
#include <cmath>
using namespace polytope;
using namespace vp;
typedef std::vector<double> R;

// Positions as digit strings, or as whole numbers where they are.
template<int D> std::vector<std::string> places(const R& x) {
  std::vector<std::string> r;
  for (size_t i = 0; i + D <= x.size(); i += D) {
    std::ostringstream s;
    s << std::setprecision(17);
    for (int k = 0; k != D; ++k) s << (k ? "," : "") << x[i + k];
    r.push_back(s.str());
  }
  return r;
}
template<int D> std::vector<R> tuples(const R& x, double scale = 0.0) {
  std::vector<R> r;
  for (size_t i = 0; i + D <= x.size(); i += D) {
    R p(x.begin() + i, x.begin() + i + D);
    if (scale != 0.0) for (int k = 0; k != D; ++k) p[k] = std::floor(p[k] * scale + 0.5);
    r.push_back(p);
  }
  return r;
}
std::vector<std::vector<int> > lists(In& in) {
  std::vector<std::vector<int> > r(in.integer());
  for (size_t i = 0; i != r.size(); ++i) r[i] = in.ints();
  return r;
}
std::vector<std::vector<unsigned> > ulists(In& in) {
  std::vector<std::vector<unsigned> > r(in.integer());
  for (size_t i = 0; i != r.size(); ++i) r[i] = in.unsigneds();
  return r;
}
std::vector<std::vector<std::vector<int> > > holes(In& in) {
  std::vector<std::vector<std::vector<int> > > r(in.integer());
  for (size_t i = 0; i != r.size(); ++i) r[i] = lists(in);
  return r;
}

template<int D> void outlineParts(Out& o, const ReducedPLC<D, double>& p) {
  o.s << "{\"facets\":"; o.val(p.facets); o.s << ",\"holes\":"; o.val(p.holes);
  o.s << ",\"points\":"; o.val(places<D>(p.points));
  o.s << ",\"odd\":" << (p.points.size() % D) << ",\"empty\":" << (p.empty() ? "true" : "false") << "}";
}
template<int D> void made(Out& o, const ReducedPLC<D, double>& p, double scale) {
  o.key("made");
  o.s << "{\"facets\":"; o.val(p.facets); o.s << ",\"holes\":"; o.val(p.holes); o.s << ",\"points\":"; o.val(tuples<D>(p.points, scale)); o.s << "}";
}
template<int D> void meshParts(Out& o, const Tessellation<D, double>& m) {
  o.s << "{\"nodes\":"; o.val(places<D>(m.nodes)); o.s << ",\"cells\":"; o.val(m.cells); o.s << ",\"faces\":"; o.val(m.faces);
  o.s << ",\"bnodes\":"; o.val(m.boundaryNodes); o.s << ",\"bfaces\":"; o.val(m.boundaryFaces); o.s << ",\"faceCells\":"; o.val(m.faceCells);
  o.s << ",\"hullf\":"; o.val(m.convexHull.facets); o.s << ",\"hullh\":"; o.val(m.convexHull.holes);
  o.s << ",\"neighbors\":"; o.val(m.neighborDomains); o.s << ",\"sharedNodes\":"; o.val(m.sharedNodes); o.s << ",\"sharedFaces\":"; o.val(m.sharedFaces);
}

template<int D> void box(ReducedPLC<D, double>& p, R lo, R hi);
template<> void box<2>(ReducedPLC<2, double>& p, R lo, R hi) { internal::makeBoxPLC(p, &lo[0], &hi[0]); }
template<> void box<3>(ReducedPLC<3, double>& p, R lo, R hi) { p = plc_box<3, double>(&lo[0], &hi[0]); }

template<int D> void history(In& in, Out& o) {
  typedef Tessellation<D, double> Mesh;
  typedef ReducedPLC<D, double> Outline;
  std::vector<Mesh*> m(3);
  std::vector<Outline*> p(3);
  for (int i = 0; i != 3; ++i) { m[i] = new Mesh; p[i] = new Outline; }
  int n = in.integer();
  o.key("ops");
  o.s << "[";
  for (int k = 0; k != n; ++k) {
    std::string op = in.word();
    int s = in.integer();
    if (op == "Mn") { delete m[s]; m[s] = new Mesh; }
    else if (op == "Mc") m[s]->clear();
    else if (op == "Mf") {
      std::string part = in.word();
      if (part == "nodes") m[s]->nodes = in.reals();
      else if (part == "cells") m[s]->cells = lists(in);
      else if (part == "faces") m[s]->faces = ulists(in);
      else if (part == "bnodes") m[s]->boundaryNodes = in.unsigneds();
      else if (part == "bfaces") m[s]->boundaryFaces = in.unsigneds();
      else if (part == "faceCells") m[s]->faceCells = lists(in);
      else if (part == "hullf") m[s]->convexHull.facets = lists(in);
      else if (part == "hullh") m[s]->convexHull.holes = holes(in);
      else if (part == "neighbors") m[s]->neighborDomains = in.unsigneds();
      else if (part == "sharedNodes") m[s]->sharedNodes = ulists(in);
      else if (part == "sharedFaces") m[s]->sharedFaces = ulists(in);
      else in.die();
    }
    else if (op == "On") { delete p[s]; p[s] = new Outline; }
    else if (op == "Oc") p[s]->clear();
    else if (op == "Of") {
      std::string part = in.word();
      if (part == "facets") p[s]->facets = lists(in);
      else if (part == "holes") p[s]->holes = holes(in);
      else if (part == "points") p[s]->points = in.reals();
      else in.die();
    } else if (op == "Oa") *p[s] = *p[in.integer()];
    else if (op == "Ok") { Outline* x = new Outline(*p[in.integer()]); delete p[s]; p[s] = x; }
    else if (op == "Or") { int t = in.integer(); Outline* x = new Outline(*p[t], p[t]->points); delete p[s]; p[s] = x; }
    else if (op == "Ob") { R lo = in.reals(), hi = in.reals(); box<D>(*p[s], lo, hi); }
    else in.die();
    o.s << (k ? "," : "") << "{\"meshes\":[";
    for (int i = 0; i != 3; ++i) { if (i) o.s << ","; meshParts<D>(o, *m[i]); o.s << ",\"odd\":" << (m[i]->nodes.size() % D) << ",\"empty\":" << (m[i]->empty() ? "true" : "false") << "}"; }
    o.s << "],\"outlines\":[";
    for (int i = 0; i != 3; ++i) { if (i) o.s << ","; outlineParts<D>(o, *p[i]); }
    o.s << "]}";
  }
  o.s << "]";
  for (int i = 0; i != 3; ++i) { delete m[i]; delete p[i]; }
}

template<int D> void views(In& in, Out& o, bool outlined) {
  Tessellation<D, double> mesh;
  if (in.word() == "mesh") readMesh<D>(in, mesh);
  else in.die();
  o.key("mesh"); meshParts<D>(o, mesh); o.s << "}";
  o.kv("nodeCells", mesh.computeNodeCells());
  o.kv("cellNodes", mesh.computeCellToNodes());
  std::vector<unsigned> f(3, 7), n(2, 5);
  findBoundaryElements(mesh, f, n);
  o.kv("rimFaces", f); o.kv("rimNodes", n);
  o.key("outlines");
  o.s << "[";
  if (outlined) for (size_t i = 0; i != mesh.cells.size(); ++i) {
    if (i) o.s << ",";
    outlineParts<D>(o, geometry::cellToReducedPLC<D, double>(mesh, i));
  }
  o.s << "]";
  o.key("after"); meshParts<D>(o, mesh); o.s << "}";
}
// The same for a mesh that the library makes.
void tessellated(In& in, Out& o) {
  Tessellation<2, double> mesh;
  R g = in.reals();
  ReducedPLC<2, double> plc;
  plc.points = in.reals();
  readPLC<2>(in, plc);
  BoostTessellator<double> t;
  t.tessellate(g, plc, mesh);
  o.key("mesh"); meshParts<2>(o, mesh); o.s << "}";
  o.kv("nodeCells", mesh.computeNodeCells());
  o.kv("cellNodes", mesh.computeCellToNodes());
  o.kv("rimFaces", mesh.boundaryFaces); o.kv("rimNodes", mesh.boundaryNodes);
  o.key("outlines");
  o.s << "[";
  for (size_t i = 0; i != mesh.cells.size(); ++i) {
    if (i) o.s << ",";
    outlineParts<2>(o, geometry::cellToReducedPLC<2, double>(mesh, i));
  }
  o.s << "]";
  o.key("after"); meshParts<2>(o, mesh); o.s << "}";
}

template<typename I> void removal(In& in, Out& o, bool nested) {
  std::vector<int> v = in.ints();
  std::vector<I> gone;
  std::vector<int> g = in.ints();
  for (size_t i = 0; i != g.size(); ++i) gone.push_back(g[i]);
  std::vector<int> map;
  if (nested) {
    std::vector<std::vector<std::string> > w(v.size());
    for (size_t i = 0; i != v.size(); ++i) { std::ostringstream s; s << v[i]; w[i].assign(i % 3 + 1, s.str()); }
    std::vector<int> lens(v.size());
    map = internal::removeElements(w, gone);
    v.clear();
    for (size_t i = 0; i != w.size(); ++i) v.push_back(w[i].empty() ? -77 : atoi(w[i].back().c_str()));
  } else map = internal::removeElements(v, gone);
  o.kv("result", v);
  o.kv("map", map);
}

template<int D> void extract(In& in, Out& o) {
  R x = in.reals();
  std::vector<unsigned> l = in.unsigneds();
  o.kv("result", places<D>(DimensionTraits<D, double>::extractCoords(x, l)));
  o.kv("points", places<D>(x));
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  std::ifstream f(argv[1]);
  FILE* out = fopen(argv[2], "a");
  long start = argc > 3 ? atol(argv[3]) : 0;
  std::string line;
  for (long k = 0; std::getline(f, line); ++k) {
    if (k < start) continue;
    In in(line);
    std::string id = in.word(), what = in.word();
    int dim = in.integer();
    { Out b; b.kv("id", id); b.kv("ev", "begin"); emit(out, b.done()); }
    Out o;
    o.kv("id", id); o.kv("ev", "end");
    if (what == "hist") { if (dim == 2) history<2>(in, o); else history<3>(in, o); }
    else if (what == "views") { bool ol = in.integer(); if (dim == 2) views<2>(in, o, ol); else views<3>(in, o, ol); }
    else if (what == "tess") tessellated(in, o);
    else if (what == "remove") {
      int kind = in.integer();
      if (kind == 0) removal<unsigned>(in, o, false);
      else if (kind == 1) removal<int>(in, o, false);
      else removal<unsigned>(in, o, true);
    } else if (what == "extract") { if (dim == 2) extract<2>(in, o); else extract<3>(in, o); }
    else if (what == "box") {
      R lo = in.reals(), hi = in.reals();
      if (dim == 2) made<2>(o, plc_box<2, double>(&lo[0], &hi[0]), 0.0);
      else made<3>(o, plc_box<3, double>(&lo[0], &hi[0]), 0.0);
    } else {
      R c = in.reals();
      double r = in.real();
      if (what == "circle") {
        ReducedPLC<2, double> p = plc_circle<double>(Point2<double>(c[0], c[1]), r, in.integer());
        for (size_t i = 0; i != p.points.size(); ++i) p.points[i] -= c[i % 2];
        made<2>(o, p, 1000.0 / r);
      } else {
        ReducedPLC<3, double> p;
        if (what == "sphere") p = plc_sphere<double>(Point3<double>(c[0], c[1], c[2]), r, in.integer());
        else { double len = in.real(); p = plc_cylinder<double>(Point3<double>(c[0], c[1], c[2]), r, len, in.integer()); }
        for (size_t i = 0; i != p.points.size(); ++i) p.points[i] -= c[i % 3];
        made<3>(o, p, 1000.0 / r);
      }
    }
    emit(out, o.done());
  }
  fclose(out);
  MPI_Finalize();
  return 0;
}
