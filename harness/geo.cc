// Geometric operations driver.
//   geo IN OUT [start]
// Line: <id> <what> <arguments>; one record with the answer.
//   within|nearest|inter <points> <facets and holes> <queries>
//   segments|line|sides|circum|plane|box|round <queries>           see the functions
//   hull2|hull3 <points> <low> <dx>
//   convex2|convex3 <reduced outline> <reduced outline>            both questions, both orders
//   cell2|cell3 <mesh>
//   simp2|simp3 <points> <facets and holes> <low> <high> <tol>     simplifyPLCfacets, twice
#include "mpi.h"
#include "vpmesh.hh"
#include "polytope_tessellator_utilities.hh"
#include "simplifyPLCfacets.hh"
#include "within.hh"
#include "nearestPoint.hh"
#include "intersect.hh"
#include "convexHull_2d.hh"
#include "convexHull_3d.hh"
#include "convexIntersect.hh"
#include "convexWithin.hh"
using namespace polytope;
using namespace vp;

template<int D>
void putr(Out& o, const ReducedPLC<D, double>& p, bool kept) {
  o.s << "{\"kept\":" << (kept ? "true" : "false") << ",\"points\":"; o.val(p.points);
  o.s << ",\"facets\":"; o.val(p.facets);
  o.s << ",\"holes\":"; o.val(p.holes);
  o.s << "}";
}

template<int D>
void simplify(In& in, Out& o) {
  const std::vector<double> x = in.reals();
  PLC<D, double> plc;
  readPLC<D>(in, plc);
  const PLC<D, double> before = plc;
  const std::vector<double> xb = x;
  double low[D], high[D];
  for (int i = 0; i != D; ++i) low[i] = in.real();
  for (int i = 0; i != D; ++i) high[i] = in.real();
  const double tol = in.real();
  o.key("outs"); o.s << "[";
  ReducedPLC<D, double> a = simplifyPLCfacets(plc, x, low, high, tol);
  putr<D>(o, a, plc.facets == before.facets && plc.holes == before.holes && x == xb);
  o.s << ",";
  const ReducedPLC<D, double> c = a;
  ReducedPLC<D, double> b = simplifyPLCfacets(a, a.points, low, high, tol);
  putr<D>(o, b, a.facets == c.facets && a.holes == c.holes && a.points == c.points);
  o.s << "]";
}

typedef std::vector<double> R;

// Questions about an outline.
void outline(const std::string& what, In& in, Out& o) {
  const R x = in.reals();
  PLC<2, double> plc;
  readPLC<2>(in, plc);
  const unsigned n = x.size()/2;
  const R q = in.reals();
  R before;                                    // intersections are appended
  o.key("qs"); o.s << "[";
  if (what == "inter") {
    for (size_t i = 0; i + 3 < q.size(); i += 4) {
      R r;
      if (i % 8) r = before;
      const size_t m = r.size();
      const unsigned k = intersect<2, double>(&q[i], &q[i + 2], n, &x[0], plc, r);
      const bool kept = std::equal(before.begin(), before.begin() + m, r.begin());
      before = r;
      r.erase(r.begin(), r.begin() + m);
      o.s << (i ? "," : "") << "{\"n\":" << k << ",\"kept\":" << (kept ? "true" : "false") << ",\"x\":"; o.val(r); o.s << "}";
    }
  } else {
    for (size_t i = 0; i + 1 < q.size(); i += 2) {
      o.s << (i ? "," : "");
      if (what == "within") o.s << (within<2, double>(&q[i], n, &x[0], plc) ? "true" : "false");
      else {
        R r(2);
        const double d = nearestPoint<2, double>(&q[i], n, &x[0], plc, &r[0]);
        r.push_back(d);
        o.val(r);
      }
    }
  }
  o.s << "]";
}

template<int D>
void hull(In& in, Out& o);
template<>
void hull<2>(In& in, Out& o) {
  const R x = in.reals();
  const R low = in.reals();
  const double dx = in.real();
  o.kv("facets", convexHull_2d<double>(x, &low[0], dx).facets);
}
template<>
void hull<3>(In& in, Out& o) {
  const R x = in.reals();
  const R low = in.reals();
  const double dx = in.real();
  o.kv("facets", convexHull_3d<double>(x, &low[0], dx).facets);
}

template<int D>
void convex(In& in, Out& o) {
  ReducedPLC<D, double> a, b;
  a.points = in.reals(); readPLC<D>(in, a);
  b.points = in.reals(); readPLC<D>(in, b);
  std::vector<int> m(2), w(2);
  m[0] = convexIntersect(a, b); m[1] = convexIntersect(b, a);
  w[0] = convexWithin(a, b); w[1] = convexWithin(b, a);
  o.kv("meets", m);
  o.kv("in", w);
}

// Questions about a few points: <dimension> <number of queries> and for each its reals.
void few(const std::string& what, In& in, Out& o) {
  const int dim = in.integer(), nq = in.integer();
  o.key("qs"); o.s << "[";
  for (int k = 0; k != nq; ++k) {
    R q = in.reals(), r(3);
    if (k) o.s << ",";
    bool ok = true;
    if (what == "segments") ok = geometry::segmentIntersection2D<double>(&q[0], &q[2], &q[4], &q[6], &r[0]);
    else if (what == "line") {
      if (dim == 2) { r[0] = geometry::collinear<2, double>(&q[0], &q[2], &q[4], 1.0e-10); r[1] = geometry::between<2, double>(&q[0], &q[2], &q[4], 1.0e-10); }
      else { r[0] = geometry::collinear<3, double>(&q[0], &q[3], &q[6], 1.0e-10); r[1] = geometry::between<3, double>(&q[0], &q[3], &q[6], 1.0e-10); }
    } else if (what == "sides") {
      if (dim == 2) r[0] = geometry::aboveBelow(q[0], q[1], q[2], q[3], q[4], q[5]);
      else {
        double n[3];
        geometry::computeNormal(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8], n[0], n[1], n[2]);
        r[0] = geometry::aboveBelow(q[0], q[1], q[2], n[0], n[1], n[2], q[9], q[10], q[11]);
        r.insert(r.end(), n, n + 3);
      }
    } else if (what == "circum") {
      if (dim == 2) geometry::computeCircumcenter2d(&q[0], &q[2], &q[4], &r[0]);
      else if (q.size() == 12) geometry::computeCircumcenter3d(&q[0], &q[3], &q[6], &q[9], &r[0]);
      else ok = geometry::computeTriangleCircumcenter3d(&q[0], &q[3], &q[6], &r[0]);
    } else if (what == "plane") ok = geometry::rayPlaneIntersection<double>(&q[0], &q[3], &q[6], &q[9], 1.0e-10, &r[0]);
    else if (what == "box") r.push_back(geometry::rayBoxIntersection<double>(&q[0], &q[3], &q[6], &q[9], 1.0e-10, &r[0]));
    else if (what == "round") {
      if (dim == 2) ok = geometry::rayCircleIntersection<double>(&q[0], &q[2], &q[4], q[6], 1.0e-10, &r[0]);
      else ok = geometry::raySphereIntersection<double>(&q[0], &q[3], &q[6], q[9], 1.0e-10, &r[0]);
    } else in.die();
    o.s << "{\"ok\":" << (ok ? "true" : "false") << ",\"x\":"; o.val(r); o.s << "}";
  }
  o.s << "]";
}

void cell2(In& in, Out& o) {
  Tessellation<2, double> mesh;
  readMesh<2>(in, mesh);
  R x(2); double a = 0;
  geometry::computeCellCentroidAndSignedArea<double>(mesh, in.integer(), 1.0e-12, &x[0], a);
  o.kv("x", x); o.kv("size", a);
}
void cell3(In& in, Out& o) {
  Tessellation<3, double> mesh;
  readMesh<3>(in, mesh);
  R x(3); double a = 0;
  geometry::computeCellCentroidAndSignedVolume<double>(mesh, in.integer(), &x[0], a);
  o.kv("x", x); o.kv("size", a);
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  std::ifstream f(argv[1]);
  FILE* out = fopen(argv[2], "a");
  long start = argc > 3 ? atol(argv[3]) : 0;
  std::string line;
  for (long k = 0; std::getline(f, line); ++k) {
    if (k < start) continue;
    In in(line);
    std::string id = in.word(), what = in.word();
    { Out b; b.kv("id", id); b.kv("ev", "begin"); emit(out, b.done()); }
    Out o;
    o.kv("id", id); o.kv("ev", "end");
    if (what == "simp2") simplify<2>(in, o);
    else if (what == "simp3") simplify<3>(in, o);
    else if (what == "within" || what == "nearest" || what == "inter") outline(what, in, o);
    else if (what == "hull2") hull<2>(in, o);
    else if (what == "hull3") hull<3>(in, o);
    else if (what == "convex2") convex<2>(in, o);
    else if (what == "convex3") convex<3>(in, o);
    else if (what == "cell2") cell2(in, o);
    else if (what == "cell3") cell3(in, o);
    else few(what, in, o);
    emit(out, o.done());
  }
  fclose(out);
  MPI_Finalize();
  return 0;
}
