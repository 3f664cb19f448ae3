// Boolean operations driver: a session over slots that hold outlines.
//   csg IN OUT [start]
// Line: <id> <kind> <steps>, kind 2d | 2i | 3d | 3i | bg, then the steps, each one of
//   def <slot> <points> <facets and holes>
//   union|intersect|subtract <dst> <a> <b>
// and, for bg only,
//   reduce <dst> <n> <slots>       boost_unionReduce
//   clip <dst> <a> <b> <x> <y>     boost_clip; the piece around a point first, then the others
//   within <a> <x> <y>   meets <a> <b>   self <a>
// A record holds, for every step but def, what it returned and whether the
// outlines in the other slots are what they were.
#include "mpi.h"
#include "vpmesh.hh"
#include "polytope_tessellator_utilities.hh"
#include "PLC_CSG_2d.hh"
#include "PLC_CSG_3d.hh"
#include "PLC_Boost_2d.hh"
using namespace polytope;
using namespace vp;

template<int D, typename R>
void get(In& in, ReducedPLC<D, R>& p) {
  std::vector<double> x = in.reals();
  p = ReducedPLC<D, R>();
  for (size_t i = 0; i != x.size(); ++i) p.points.push_back(R(x[i]));
  PLC<D, double> q;
  readPLC<D>(in, q);
  p.facets = q.facets;
  p.holes = q.holes;
}

template<int D, typename R>
void put(Out& o, const ReducedPLC<D, R>& p) {
  o.s << "{\"points\":[";
  for (size_t i = 0; i != p.points.size(); ++i) { if (i) o.s << ","; o.num(double(p.points[i])); }
  o.s << "],\"facets\":"; o.val(p.facets);
  o.s << ",\"holes\":"; o.val(p.holes);
  o.s << "}";
}

template<int D, typename R>
bool same(const std::vector<ReducedPLC<D, R> >& a, const std::vector<ReducedPLC<D, R> >& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i != a.size(); ++i)
    if (a[i].points != b[i].points || a[i].facets != b[i].facets || a[i].holes != b[i].holes) return false;
  return true;
}

template<int D, typename R>
void session(In& in, Out& o) {
  typedef ReducedPLC<D, R> P;
  std::vector<P> slot(8);
  const int n = in.integer();
  bool first = true;
  for (int i = 0; i != n; ++i) {
    std::string w = in.word();
    if (w == "def") { int s = in.integer(); get(in, slot[s]); continue; }
    int d = in.integer(), a = in.integer(), b = in.integer();
    std::vector<P> before = slot;
    P r;
    if (w == "union") r = CSG::csg_union(slot[a], slot[b]);
    else if (w == "intersect") r = CSG::csg_intersect(slot[a], slot[b]);
    else if (w == "subtract") r = CSG::csg_subtract(slot[a], slot[b]);
    else in.die();
    if (!first) o.s << ",";
    first = false;
    o.s << "{\"kept\":" << (same(before, slot) ? "true" : "false") << ",\"plcs\":[";
    put(o, r);
    o.s << "]}";
    slot[d] = r;
  }
}

void bgsession(In& in, Out& o) {
  typedef ReducedPLC<2, double> P;
  typedef Point2<double> Pt;
  std::vector<P> slot(8);
  const int n = in.integer();
  bool first = true;
  for (int i = 0; i != n; ++i) {
    std::string w = in.word();
    if (w == "def") { int s = in.integer(); get(in, slot[s]); continue; }
    std::vector<P> before = slot, r;
    int d = -1, ans = -1;
    if (w == "union" || w == "intersect" || w == "subtract") {
      d = in.integer(); int a = in.integer(), b = in.integer();
      r = w == "union" ? BG::boost_union(slot[a], slot[b]) : w == "intersect" ? BG::boost_intersect(slot[a], slot[b])
        : BG::boost_subtract(slot[a], slot[b]);
    } else if (w == "reduce") {
      d = in.integer();
      std::vector<int> s = in.ints();
      std::vector<P> v;
      for (size_t j = 0; j != s.size(); ++j) v.push_back(slot[s[j]]);
      r = BG::boost_unionReduce(v);
    } else if (w == "clip") {
      d = in.integer(); int a = in.integer(), b = in.integer();
      double x = in.real(), y = in.real();
      std::vector<P> rest;
      P p = BG::boost_clip(slot[a], slot[b], Pt(x, y), rest);
      r.push_back(p);
      r.insert(r.end(), rest.begin(), rest.end());
    } else if (w == "within") {
      int a = in.integer(); double x = in.real(), y = in.real();
      ans = BG::boost_within(Pt(x, y), slot[a]);
    } else if (w == "meets") {
      int a = in.integer(), b = in.integer();
      ans = BG::boost_intersects(slot[a], slot[b]);
    } else if (w == "self") {
      ans = BG::boost_intersects(slot[in.integer()]);
    } else in.die();
    if (!first) o.s << ",";
    first = false;
    o.s << "{\"kept\":" << (same(before, slot) ? "true" : "false") << ",\"answer\":" << ans << ",\"plcs\":[";
    for (size_t j = 0; j != r.size(); ++j) { if (j) o.s << ","; put(o, r[j]); }
    o.s << "]}";
    if (d >= 0 && !r.empty()) slot[d] = r[0];
  }
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  std::ifstream f(argv[1]);
  FILE* out = fopen(argv[2], "a");
  long start = argc > 3 ? atol(argv[3]) : 0;
  std::string line;
  for (long k = 0; std::getline(f, line); ++k) {
    if (k < start) continue;
    In in(line);
    std::string id = in.word(), kind = in.word();
    { Out b; b.kv("id", id); b.kv("ev", "begin"); emit(out, b.done()); }
    Out o;
    o.kv("id", id); o.kv("ev", "end");
    o.key("steps"); o.s << "[";
    if (kind == "2d") session<2, double>(in, o);
    else if (kind == "2i") session<2, int64_t>(in, o);
    else if (kind == "3d") session<3, double>(in, o);
    else if (kind == "3i") session<3, int64_t>(in, o);
    else if (kind == "bg") bgsession(in, o);
    else in.die();
    o.s << "]";
    emit(out, o.done());
  }
  fclose(out);
  MPI_Finalize();
  return 0;
}
