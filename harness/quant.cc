// Hash keys, quantised positions and the tolerant set of positions.
#include "polytope.hh"
#include "IntPointMap.hh"
#include "QuantizedCoordinates.hh"
#include "vpio.hh"
#include "vpmesh.hh"
#include <mpi.h>
#include <cmath>
using namespace polytope;
using namespace vp;
typedef std::vector<double> R;

// Whole steps and thousandths of x above lo.
std::vector<long long> steps(double x, double lo, double dx) {
  const double t = (x - lo) / dx, m = std::floor(t + 1e-9);
  std::vector<long long> r;
  r.push_back((long long)m);
  r.push_back((long long)std::floor((t - m) * 1000.0 + 0.5));
  if (r[1] < 0) r[1] = 0;
  if (r[1] > 999) r[1] = 999;
  return r;
}
std::string hex(uint64_t k) { char b[24]; snprintf(b, 24, "%016llx", (unsigned long long)k); return b; }

template<int D> struct Bins;
template<> struct Bins<2> { static std::vector<long long> of(uint64_t k) {
  typedef geometry::Hasher<2, double> H; std::vector<long long> r; r.push_back(H::qxval(k)); r.push_back(H::qyval(k)); return r; } };
template<> struct Bins<3> { static std::vector<long long> of(uint64_t k) {
  typedef geometry::Hasher<3, double> H; std::vector<long long> r; r.push_back(H::qxval(k)); r.push_back(H::qyval(k)); r.push_back(H::qzval(k)); return r; } };

// boxes, tolerance and the resolution of each box on each axis, then positions
template<int D> void hashes(In& in, Out& o) {
  typedef geometry::Hasher<D, double> H;
  R il = in.reals(), ih = in.reals(), ol = in.reals(), oh = in.reals();
  double tol = in.real();
  R di = in.reals(), d2 = in.reals();
  int n = in.integer();
  o.kv("top", (long long)H::coordMax());
  o.key("qs");
  o.s << "[";
  for (int q = 0; q != n; ++q) {
    R p = in.reals(), kept(p);
    bool inner = in.integer();
    uint64_t k = H::hashPosition(&p[0], &il[0], &ih[0], &ol[0], &oh[0], tol);
    R b(D, -1.0);
    H::unhashPosition(&b[0], &il[0], &ih[0], &ol[0], &oh[0], k, tol);
    uint64_t k2 = H::hashPosition(&b[0], &il[0], &ih[0], &ol[0], &oh[0], tol);
    std::vector<std::vector<long long> > back, end;
    bool within = true;
    for (int j = 0; j != D; ++j) {
      const double lo = (inner ? il : ol)[j], hi = (inner ? ih : oh)[j], dx = (inner ? di : d2)[j];
      back.push_back(steps(b[j], lo, dx));
      end.push_back(steps(hi, lo, dx));
      within = within && il[j] <= b[j] && b[j] <= ih[j];
    }
    o.s << (q ? "," : "") << "{\"key\":\"" << hex(k) << "\",\"again\":\"" << hex(k2) << "\",\"outer\":" << ((k & H::outerFlag()) ? "true" : "false")
        << ",\"bins\":"; o.val(Bins<D>::of(k)); o.s << ",\"back\":"; o.val(back); o.s << ",\"end\":"; o.val(end); o.s << ",\"within\":" << (within ? "true" : "false") << "}";
    if (p != kept) { fprintf(stderr, "input changed\n"); abort(); }
  }
  o.s << "]";
}
template<int D> void unique(In& in, Out& o) {
  R lo = in.reals(), hi = in.reals();
  double tol = in.real();
  R p = in.reals(), u(3, 1.5);
  std::vector<unsigned> map(2, 9);
  geometry::uniquePoints<D, double>(p, &lo[0], &hi[0], tol, u, map);
  std::vector<R> a, b;
  for (size_t i = 0; i < p.size(); i += D) a.push_back(R(p.begin() + i, p.begin() + i + D));
  for (size_t i = 0; i + D <= u.size(); i += D) b.push_back(R(u.begin() + i, u.begin() + i + D));
  std::vector<std::string> sa, sb;
  for (int w = 0; w != 2; ++w) for (size_t i = 0; i != (w ? b : a).size(); ++i) {
    std::ostringstream s; s << std::setprecision(17);
    for (int k = 0; k != D; ++k) s << (w ? b : a)[i][k] << ",";
    (w ? sb : sa).push_back(s.str());
  }
  o.kv("top", (long long)geometry::Hasher<D, double>::coordMax());
  o.kv("map", map); o.kv("given", sa); o.kv("points", sb);
}
template<int D> struct Q;
template<> struct Q<2> { typedef QuantizedTessellation2d<int, double> T; };
template<> struct Q<3> { typedef QuantizedTessellation3d<int, double> T; };
template<int D> void grid(In& in, Out& o) {
  // either the bounds of the grid, or positions of a boundary around which it
  // keeps twice their extent
  bool around = in.integer();
  R lo = in.reals(), hi = in.reals(), rim;
  if (around) rim = in.reals();
  R p = in.reals();
  typename Q<D>::T* tp = around ? new typename Q<D>::T(p, rim) : new typename Q<D>::T(p, &lo[0], &hi[0]);
  typename Q<D>::T& t = *tp;
  double len = 0;
  for (int k = 0; k != D; ++k) len = std::max(len, hi[k] - lo[k]);
  const double dx = len / ((double)Q<D>::T::coordMax - (double)Q<D>::T::coordMin);
  o.kv("lowest", Q<D>::T::coordMin);
  o.kv("highest", Q<D>::T::coordMax);
  o.key("qs");
  o.s << "[";
  for (size_t i = 0; i < p.size(); i += D) {
    std::vector<int> x(D), g(D);
    R b(D);
    t.quantize(&p[i], &x[0]);
    t.dequantize(&x[0], &b[0]);
    for (int k = 0; k != D; ++k) g[k] = t.generators[i / D][k];
    std::vector<std::vector<long long> > back;
    for (int k = 0; k != D; ++k) back.push_back(steps(b[k], lo[k], dx));
    o.s << (i ? "," : "") << "{\"ints\":"; o.val(x); o.s << ",\"generator\":"; o.val(g);
    o.s << ",\"index\":" << t.generators[i / D].index << ",\"back\":"; o.val(back); o.s << "}";
  }
  o.s << "]";
  delete tp;
}
// The quantising constructors of points, with and without a low corner.
template<int D, typename I> void rounding(In& in, Out& o, int how);
template<typename I> void result2(Out& o, const Point2<I>& a, const R& lo, double dx) {
  std::vector<long long> x; x.push_back(a.x); x.push_back(a.y);
  std::vector<std::vector<long long> > back;
  back.push_back(steps(a.realx(lo[0], dx), lo[0], dx)); back.push_back(steps(a.realy(lo[1], dx), lo[1], dx));
  o.s << "{\"ints\":"; o.val(x); o.s << ",\"index\":" << a.index << ",\"back\":"; o.val(back); o.s << "}";
}
template<typename I> void result3(Out& o, const Point3<I>& a, const R& lo, double dx) {
  std::vector<long long> x; x.push_back(a.x); x.push_back(a.y); x.push_back(a.z);
  std::vector<std::vector<long long> > back;
  back.push_back(steps(a.realx(lo[0], dx), lo[0], dx)); back.push_back(steps(a.realy(lo[1], dx), lo[1], dx)); back.push_back(steps(a.realz(lo[2], dx), lo[2], dx));
  o.s << "{\"ints\":"; o.val(x); o.s << ",\"index\":" << a.index << ",\"back\":"; o.val(back); o.s << "}";
}
template<int D> void rounds(In& in, Out& o) {
  int kind = in.integer();           // 0 int with low corner, 1 int64 with low corner, 2 int from the origin, 3 DimensionTraits
  unsigned index = in.integer();
  R lo = in.reals();
  double dx = in.real();
  R p = in.reals(), zero(3, 0.0);
  o.key("qs");
  o.s << "[";
  for (size_t i = 0; i < p.size(); i += D) {
    const double* q = &p[i];
    if (i) o.s << ",";
    if (D == 2) {
      if (kind == 0) result2(o, Point2<int>(q[0], q[1], lo[0], lo[1], dx, index), lo, dx);
      else if (kind == 1) result2(o, Point2<int64_t>(q[0], q[1], lo[0], lo[1], dx, index), lo, dx);
      else if (kind == 2) result2(o, Point2<int>(q[0], q[1], dx, index), zero, dx);
      else result2(o, DimensionTraits<2, double>::constructPoint(q, &lo[0], dx, index), lo, dx);
    } else {
      if (kind == 0) result3(o, Point3<int>(q[0], q[1], q[2], lo[0], lo[1], lo[2], dx, index), lo, dx);
      else if (kind == 1) result3(o, Point3<int64_t>(q[0], q[1], q[2], lo[0], lo[1], lo[2], dx, index), lo, dx);
      else if (kind == 2) result3(o, Point3<int>(q[0], q[1], q[2], dx, index), zero, dx);
      else result3(o, DimensionTraits<3, double>::constructPoint(q, &lo[0], dx, index), lo, dx);
    }
  }
  o.s << "]";
}
template<int D> void lookups(In& in, Out& o) {
  int tol = in.integer(), n = in.integer();
  internal::IntPointMap<D, int> m(tol);
  typedef typename internal::IntPointMap<D, int>::IntPoint P;
  o.key("qs");
  o.s << "[";
  for (int i = 0; i != n; ++i) {
    bool ask = in.integer();
    P p;
    for (int k = 0; k != D; ++k) p[k] = in.integer();
    if (i) o.s << ",";
    if (ask) o.s << "{\"had\":" << (m.have(p) ? "true" : "false") << "}";
    else o.s << "{\"got\":" << m.index(p) << "}";
  }
  o.s << "]";
}
template<int D> void centre(In& in, Out& o) {
  Tessellation<D, double> mesh;
  readMesh<D>(in, mesh);
  R lo = in.reals();
  double dx = in.real();
  o.key("qs");
  o.s << "[";
  for (size_t f = 0; f != mesh.faces.size(); ++f) {
    typename DimensionTraits<D, double>::IntPoint p = DimensionTraits<D, double>::faceCentroid(mesh, f, &lo[0], dx);
    std::vector<int> x;
    for (int k = 0; k != D; ++k) x.push_back(p[k]);
    o.s << (f ? "," : "") << "{\"got\":"; o.val(x); o.s << ",\"index\":" << p.index << "}";
  }
  o.s << "]";
}
// The limits of keys and grids.
template<int D> void limits(In&, Out& o) {
  o.kv("top", (long long)geometry::Hasher<D, double>::coordMax());
  o.kv("lowest", Q<D>::T::coordMin);
  o.kv("highest", Q<D>::T::coordMax);
}
template<int D> void coords(In& in, Out& o) {
  R p = in.reals(), more = in.reals();
  double deg = in.real();
  QuantizedCoordinates<D, double> c;
  c.initialize(p, deg);
  std::vector<bool> none;
  std::vector<int> holds;
  o.key("qs");
  o.s << "[";
  for (int pass = 0; pass != 2; ++pass) {
    if (pass) { if (more.empty()) break; c.expand(more, true); o.s << ","; p.insert(p.end(), more.begin(), more.end()); }
    bool moved = true, in_[3] = {true, true, true};
    for (size_t i = 0; i < p.size(); i += D) {
      typename QuantizedCoordinates<D, double>::IntPoint q = c.quantize(&p[i]);
      typename QuantizedCoordinates<D, double>::RealPoint b = c.dequantize(&q.x);
      for (int k = 0; k != D; ++k) {
        if (!(std::fabs(b[k] - p[i + k]) <= 0.5000001 * c.delta)) moved = false;
        if (!(c.low_inner[k] <= p[i + k] && p[i + k] <= c.high_inner[k])) in_[k] = false;
        if (q[k] < 0 || q[k] > c.coordMax()) in_[k] = false;
      }
    }
    o.s << "{\"moved\":" << (moved ? "true" : "false") << ",\"delta\":" << (c.delta == deg ? "true" : "false") << ",\"holds\":[";
    for (int k = 0; k != D; ++k) o.s << (k ? "," : "") << (in_[k] ? "true" : "false");
    o.s << "],\"facets\":"; o.val(c.facets);
    // corners of the outline as bits: on axis k at the high end
    std::vector<std::vector<int> > corners;
    for (size_t i = 0; i + D <= c.points.size(); i += D) {
      std::vector<int> b;
      for (int k = 0; k != D; ++k) b.push_back(c.points[i + k] == c.high_inner[k] ? 1 : c.points[i + k] == c.low_inner[k] ? 0 : 9);
      corners.push_back(b);
    }
    o.s << ",\"corners\":"; o.val(corners); o.s << "}";
  }
  o.s << "]";
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  std::ifstream f(argv[1]);
  FILE* out = fopen(argv[2], "a");
  long start = argc > 3 ? atol(argv[3]) : 0;
  std::string line;
  for (long k = 0; std::getline(f, line); ++k) {
    if (k < start) continue;
    In in(line);
    std::string id = in.word(), what = in.word();
    int dim = in.integer();
    { Out b; b.kv("id", id); b.kv("ev", "begin"); emit(out, b.done()); }
    Out o;
    o.kv("id", id); o.kv("ev", "end");
#define VP_BOTH(name, fn) if (what == name) { if (dim == 2) fn<2>(in, o); else fn<3>(in, o); }
    VP_BOTH("hash", hashes) else VP_BOTH("unique", unique) else VP_BOTH("grid", grid) else VP_BOTH("round", rounds)
    else VP_BOTH("map", lookups) else VP_BOTH("centre", centre) else VP_BOTH("system", coords)
    else VP_BOTH("limits", limits)
    else in.die();
    emit(out, o.done());
  }
  fclose(out);
  MPI_Finalize();
  return 0;
}
