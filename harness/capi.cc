// Sessions of calls to the C interface.
//
// usage: capi IN OUT START
// A line: ID NG {reals}*NG NP {reals}*NP NOPS OP...   (generator sets, outline point sets)
// Every call is made with the heap watched: blocks handed out inside a call are
// filled with 0xCD, given guard bytes, and when freed filled with 0xDD and kept
// until the session ends.  After each call the record shows every live object.
#include "polytope.hh"
#include "polytope_c.h"
#include "vpio.hh"
#include "vpmesh.hh"
#include "BoostTessellator.hh"
#include <new>
#include <unordered_map>
#include <mpi.h>
using namespace polytope;

// ------------------------------------------------------------------ the heap
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); }
template<typename T> struct RawAlloc {
  typedef T value_type;
  RawAlloc() {}
  template<typename U> RawAlloc(const RawAlloc<U>&) {}
  T* allocate(size_t n) { return (T*)__real_malloc(n * sizeof(T)); }
  void deallocate(T* p, size_t) { __real_free(p); }
  template<typename U> bool operator==(const RawAlloc<U>&) const { return true; }
  template<typename U> bool operator!=(const RawAlloc<U>&) const { return false; }
};
struct Block { size_t size; bool live; char how; };
typedef std::unordered_map<void*, Block, std::hash<void*>, std::equal_to<void*>, RawAlloc<std::pair<void* const, Block> > > Table;
static Table* table = 0;
static bool inApi = false;
static long liveBlocks = 0, badEvents = 0;
static const size_t GUARD = 32;

static void* track(size_t n, char how) {
  unsigned char* base = (unsigned char*)__real_malloc(n + 2 * GUARD);
  if (!base) return 0;
  memset(base, 0xFD, GUARD);
  memset(base + GUARD, 0xCD, n);
  memset(base + GUARD + n, 0xFD, GUARD);
  if (!table) table = new (__real_malloc(sizeof(Table))) Table();
  Block b = {n, true, how};
  bool was = inApi; inApi = false;
  (*table)[base + GUARD] = b;
  inApi = was;
  ++liveBlocks;
  return base + GUARD;
}
static bool guardsOk(unsigned char* p, size_t n) {
  for (size_t i = 0; i != GUARD; ++i) if (p[-1 - (long)i] != 0xFD || p[n + i] != 0xFD) return false;
  return true;
}
static void untrack(void* p, char how) {
  if (!p) return;
  if (table) {
    Table::iterator it = table->find(p);
    if (it != table->end()) {
      if (!it->second.live) { ++badEvents; return; }              // freed twice
      if (it->second.how != how) ++badEvents;                      // malloc/delete mixed
      if (!guardsOk((unsigned char*)p, it->second.size)) ++badEvents;
      memset(p, 0xDD, it->second.size);
      it->second.live = false;
      --liveBlocks;
      return;
    }
  }
  __real_free(p);
}
// Ends the quarantine; counts blocks written to after they were freed.
static void sweep() {
  if (!table) return;
  for (Table::iterator it = table->begin(); it != table->end();) {
    unsigned char* p = (unsigned char*)it->first;
    if (!guardsOk(p, it->second.size)) ++badEvents;
    if (!it->second.live) {
      for (size_t i = 0; i != it->second.size; ++i) if (p[i] != 0xDD) { ++badEvents; break; }
      __real_free(p - GUARD);
      it = table->erase(it);
    } else ++it;
  }
}
extern "C" {
void* __wrap_malloc(size_t n) { return inApi ? track(n, 'm') : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (!inApi) return __real_calloc(a, b); void* p = track(a * b, 'm'); if (p) memset(p, 0, a * b); return p; }
void __wrap_free(void* p) { untrack(p, 'm'); }
void* __wrap_realloc(void* p, size_t n) {
  if (table && p) {
    Table::iterator it = table->find(p);
    if (it != table->end()) {
      void* q = track(n, 'm');
      memcpy(q, p, std::min(n, it->second.size));
      untrack(p, 'm');
      return q;
    }
  }
  if (!p && inApi) return track(n, 'm');
  return __real_realloc(p, n);
}
}
void* operator new(size_t n) { void* p = inApi ? track(n, 'n') : __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { untrack(p, 'n'); }
void operator delete[](void* p) noexcept { untrack(p, 'n'); }
void operator delete(void* p, size_t) noexcept { untrack(p, 'n'); }
void operator delete[](void* p, size_t) noexcept { untrack(p, 'n'); }
struct Watch { Watch() { inApi = true; } ~Watch() { inApi = false; } };
#define API(...) do { Watch w_; __VA_ARGS__; } while (0)

// --------------------------------------------------------------- the objects
typedef std::vector<int> VI;
typedef std::vector<VI> VVI;
struct Plc { polytope_plc_t* p; int dim; VVI facets; std::vector<VVI> holes; Plc(): p(0) {} };
struct Mesh { polytope_tessellation_t* m; Mesh(): m(0) {} };
struct Tess { polytope_tessellator_t* t; Tess(): t(0) {} };

static std::string hexd(double v) { char b[40]; snprintf(b, 40, "%a", v); return b; }
static void hexes(vp::Out& o, const char* k, const double* v, long n) {
  o.key(k); o.s << "[";
  for (long i = 0; i < n; ++i) { if (i) o.s << ","; o.str(hexd(v[i])); }
  o.s << "]";
}
template<typename T> static void ints(vp::Out& o, const char* k, const T* v, long n) {
  o.key(k); o.s << "[";
  if (v) for (long i = 0; i < n; ++i) { if (i) o.s << ","; o.s << (long long)v[i]; }
  o.s << "]";
}
static VI facetOf(polytope_plc_t* p, int f) {
  int n = 0;
  API(n = polytope_plc_num_facet_nodes(p, f));
  if (n < 0 || n > 1000) return VI(1, -999);
  VI r(n + 1, -77);
  API(polytope_plc_get_facet_nodes(p, f, &r[0]));
  if (r[n] != -77) r.push_back(-998); else r.pop_back();
  return r;
}
static VI holeFacetOf(polytope_plc_t* p, int h, int f) {
  int n = 0;
  API(n = polytope_plc_num_hole_facet_nodes(p, h, f));
  if (n < 0 || n > 1000) return VI(1, -999);
  VI r(n + 1, -77);
  API(polytope_plc_get_hole_facet_nodes(p, h, f, &r[0]));
  if (r[n] != -77) r.push_back(-998); else r.pop_back();
  return r;
}
static void viewPlc(vp::Out& o, polytope_plc_t* p, size_t nf, size_t nh) {
  VVI facets(nf);
  std::vector<VVI> holes(nh);
  for (size_t f = 0; f != nf; ++f) facets[f] = facetOf(p, f);
  for (size_t h = 0; h != nh; ++h) {
    int n = 0;
    API(n = polytope_plc_num_hole_facets(p, h));
    if (n < 0 || n > 1000) n = 0;
    for (int f = 0; f != n; ++f) holes[h].push_back(holeFacetOf(p, h, f));
  }
  o.kv("facets", facets);
  o.kv("holes", holes);
}
static void viewMesh(vp::Out& o, polytope_tessellation_t* m) {
  o.kv("dimension", m->dimension);
  o.kv("num_nodes", m->num_nodes); o.kv("num_cells", m->num_cells); o.kv("num_faces", m->num_faces);
  o.kv("num_bnodes", m->num_boundary_nodes); o.kv("num_bfaces", m->num_boundary_faces); o.kv("num_neighbors", m->num_neighbor_domains);
  bool any = m->nodes || m->cell_offsets || m->cell_faces || m->face_offsets || m->face_nodes || m->boundary_nodes || m->boundary_faces || m->face_cells
          || m->convex_hull || m->neighbor_domains || m->shared_node_domain_offsets || m->shared_nodes || m->shared_face_domain_offsets || m->shared_faces
          || m->node_cell_offsets || m->node_cells;
  o.kv("any", any);
  bool sane = m->num_nodes >= 0 && m->num_nodes < 100000 && m->num_cells >= 0 && m->num_cells < 100000 && m->num_faces >= 0 && m->num_faces < 100000
           && m->num_boundary_nodes >= 0 && m->num_boundary_nodes < 100000 && m->num_boundary_faces >= 0 && m->num_boundary_faces < 100000
           && m->num_neighbor_domains >= 0 && m->num_neighbor_domains < 1000;
  if (!sane || (!m->nodes && m->num_nodes) || (!m->cell_offsets && m->num_cells) || (!m->face_offsets && m->num_faces) || (!m->face_cells && m->num_faces)) {
    o.kv("sane", false);
    return;
  }
  hexes(o, "nodes", m->nodes, m->nodes ? 2L * m->num_nodes : 0);
  ints(o, "cell_offsets", m->cell_offsets, m->num_cells + 1);
  long nc = m->cell_offsets ? m->cell_offsets[m->num_cells] : 0, nf = m->face_offsets ? m->face_offsets[m->num_faces] : 0;
  if (nc < 0 || nc > 1000000 || nf < 0 || nf > 1000000) { o.kv("sane", false); return; }
  ints(o, "cell_faces", m->cell_faces, nc);
  ints(o, "face_offsets", m->face_offsets, m->num_faces + 1);
  ints(o, "face_nodes", m->face_nodes, nf);
  ints(o, "bnodes", m->boundary_nodes, m->num_boundary_nodes);
  ints(o, "bfaces", m->boundary_faces, m->num_boundary_faces);
  ints(o, "face_cells", m->face_cells, 2L * m->num_faces);
  ints(o, "neighbors", m->neighbor_domains, m->num_neighbor_domains);
  ints(o, "shared_node_offsets", m->shared_node_domain_offsets, m->num_neighbor_domains + 1);
  ints(o, "shared_face_offsets", m->shared_face_domain_offsets, m->num_neighbor_domains + 1);
  o.kv("hull", m->convex_hull != 0);
  o.kv("sane", true);
}

struct Session {
  std::vector<std::vector<double> > gens, pts;
  Plc plc[4]; Mesh mesh[4]; Tess tess[4];

  void view(vp::Out& o) {
    o.key("plcs"); o.s << "[";
    for (int i = 0; i != 4; ++i) {
      if (i) o.s << ",";
      vp::Out e;
      e.kv("live", plc[i].p != 0);
      if (plc[i].p) {
        viewPlc(e, plc[i].p, plc[i].facets.size(), plc[i].holes.size());
        bool b = false;
        API(b = polytope_plc_empty(plc[i].p)); e.kv("empty", b);
        API(b = polytope_plc_valid(plc[i].p)); e.kv("valid", b);
      }
      std::string t = e.done(); o.s << t.substr(0, t.size() - 1);
    }
    o.s << "]";
    o.key("meshes"); o.s << "[";
    for (int i = 0; i != 4; ++i) {
      if (i) o.s << ",";
      vp::Out e;
      e.kv("live", mesh[i].m != 0);
      if (mesh[i].m) viewMesh(e, mesh[i].m);
      std::string t = e.done(); o.s << t.substr(0, t.size() - 1);
    }
    o.s << "]";
  }

  // The same request to the C++ library; hull: what the C mesh's hull holds.
  void reference(vp::Out& o, int kind, const std::vector<double>& g, double* low, double* high, const std::vector<double>& pp, const Plc& p, polytope_tessellation_t* m) {
    Tessellation<2, double> t;
    BoostTessellator<double> b;
    std::vector<double> gg(g), ppp(pp);
    if (kind == 0) b.tessellate(gg, t);
    else if (kind == 1) b.tessellate(gg, low, high, t);
    else { PLC<2, double> q; q.facets = p.facets; q.holes = p.holes; b.tessellate(gg, ppp, q, t); }
    vp::Out r;
    hexes(r, "nodes", t.nodes.empty() ? 0 : &t.nodes[0], t.nodes.size());
    r.kv("faces", t.faces); r.kv("cells", t.cells); r.kv("faceCells", t.faceCells);
    r.kv("bnodes", t.boundaryNodes); r.kv("bfaces", t.boundaryFaces); r.kv("neighbors", t.neighborDomains);
    r.key("hull"); r.s << "{\"facets\":"; r.val(t.convexHull.facets); r.s << ",\"holes\":"; r.val(t.convexHull.holes); r.s << "}";
    std::string s = r.done();
    o.key("ref"); o.s << s.substr(0, s.size() - 1);
    vp::Out h;
    h.kv("live", m->convex_hull != 0);
    if (m->convex_hull) {
      viewPlc(h, m->convex_hull, t.convexHull.facets.size(), t.convexHull.holes.size());
      int n = 0;                     // the next index says how many there are
      API(n = polytope_plc_add_facet(m->convex_hull)); h.kv("numFacets", n);
      API(n = polytope_plc_add_hole(m->convex_hull)); h.kv("numHoles", n);
    }
    s = h.done();
    o.key("hullview"); o.s << s.substr(0, s.size() - 1);
  }

  void printed(vp::Out& o, Plc* p, Mesh* m, int n) {
    std::vector<char> b(n + 8, 'Z');
    if (p) API(polytope_plc_snprintf(p->p, &b[0], n)); else API(polytope_tessellation_snprintf(m->m, &b[0], n));
    bool inside = true, ended = n == 0;
    for (int i = n; i != n + 8; ++i) if (b[i] != 'Z') inside = false;
    for (int i = 0; i < n; ++i) if (b[i] == 0) ended = true;
    o.kv("inside", inside); o.kv("ended", ended);
    char* buf = 0; size_t size = 0;
    FILE* f = open_memstream(&buf, &size);
    if (p) API(polytope_plc_fprintf(p->p, f)); else API(polytope_tessellation_fprintf(m->m, f));
    fclose(f);
    // snprintf gives the head of what fprintf prints.
    std::string whole(buf ? buf : "", size), head(&b[0], ended && n ? strnlen(&b[0], n) : 0);
    o.kv("some", size > 0);
    o.kv("head", whole.compare(0, head.size(), head) == 0 && head.size() == std::min<size_t>(whole.size(), n ? n - 1 : 0));
    bool ascii = true;
    for (size_t i = 0; i != whole.size(); ++i) if ((unsigned char)whole[i] > 126) ascii = false;
    o.kv("text", ascii);
    __real_free(buf);
  }

  void run(const std::string& op, vp::In& in, vp::Out& o) {
    o.kv("op", op);
    int s = in.integer();
    o.kv("slot", s);
    if (op == "Tn") API(tess[s].t = boost_tessellator_new());
    else if (op == "Tf") { API(polytope_tessellator_free(tess[s].t)); tess[s].t = 0; }
    else if (op == "Ti") {
      bool h = false; int d = 0; double e = 0; const char* nm = 0; const char* nm2 = 0;
      API(h = polytope_tessellator_handles_plcs(tess[s].t));
      API(d = polytope_tessellator_dimension(tess[s].t));
      API(e = polytope_tessellator_degeneracy(tess[s].t));
      API(nm = polytope_tessellator_name(tess[s].t));
      API(nm2 = polytope_tessellator_name(tess[s].t));
      BoostTessellator<double> b;
      o.kv("handles", h); o.kv("dimension", d); o.kv("degeneracy", hexd(e)); o.kv("name", std::string(nm)); o.kv("name2", std::string(nm2));
      o.kv("refHandles", b.handlesPLCs()); o.kv("refDegeneracy", hexd(b.degeneracy())); o.kv("refName", b.name());
    }
    else if (op == "Mn") { int d = in.integer(); o.kv("dim", d); API(mesh[s].m = polytope_tessellation_new(d)); }
    else if (op == "Mc") API(polytope_tessellation_clear(mesh[s].m));
    else if (op == "Mf") { API(polytope_tessellation_free(mesh[s].m)); mesh[s].m = 0; }
    else if (op == "Mp") printed(o, 0, &mesh[s], in.integer());
    else if (op == "Pn") { int d = in.integer(); o.kv("dim", d); plc[s] = Plc(); plc[s].dim = d; API(plc[s].p = polytope_plc_new(d)); }
    else if (op == "Pc") { API(polytope_plc_clear(plc[s].p)); plc[s].facets.clear(); plc[s].holes.clear(); }
    else if (op == "Pf") { API(polytope_plc_free(plc[s].p)); plc[s] = Plc(); }
    else if (op == "Pp") printed(o, &plc[s], 0, in.integer());
    else if (op == "Paf") { int r = -1; API(r = polytope_plc_add_facet(plc[s].p)); plc[s].facets.push_back(VI()); o.kv("ret", r); }
    else if (op == "Pan") { int f = in.integer(), n = in.integer(); o.kv("f", f); o.kv("n", n); API(polytope_plc_add_facet_node(plc[s].p, f, n)); plc[s].facets[f].push_back(n); }
    else if (op == "Pah") { int r = -1; API(r = polytope_plc_add_hole(plc[s].p)); plc[s].holes.push_back(VVI()); o.kv("ret", r); }
    else if (op == "Phf") { int h = in.integer(), r = -1; o.kv("h", h); API(r = polytope_plc_add_hole_facet(plc[s].p, h)); plc[s].holes[h].push_back(VI()); o.kv("ret", r); }
    else if (op == "Phn") { int h = in.integer(), f = in.integer(), n = in.integer(); o.kv("h", h); o.kv("f", f); o.kv("n", n);
      API(polytope_plc_add_hole_facet_node(plc[s].p, h, f, n)); plc[s].holes[h][f].push_back(n); }
    else if (op == "tu" || op == "tb" || op == "tp") {
      int g = in.integer(), m = in.integer();
      o.kv("mesh", m);
      std::vector<double> gg(gens[g]), pp;
      double low[2] = {0, 0}, high[2] = {0, 0};
      int kind = op == "tu" ? 0 : op == "tb" ? 1 : 2, p = 0;
      if (kind == 1) { low[0] = in.real(); low[1] = in.real(); high[0] = in.real(); high[1] = in.real(); }
      if (kind == 2) { p = in.integer(); pp = pts[in.integer()]; o.kv("plc", p); }
      std::vector<double> g0(gg), p0(pp); double l0[2] = {low[0], low[1]}, h0[2] = {high[0], high[1]};
      if (kind == 0) API(polytope_tessellator_tessellate_unbounded(tess[s].t, &gg[0], gg.size() / 2, mesh[m].m));
      else if (kind == 1) API(polytope_tessellator_tessellate_in_box(tess[s].t, &gg[0], gg.size() / 2, low, high, mesh[m].m));
      else API(polytope_tessellator_tessellate_in_plc(tess[s].t, &gg[0], gg.size() / 2, &pp[0], pp.size() / 2, plc[p].p, mesh[m].m));
      o.kv("inputs", gg == g0 && pp == p0 && low[0] == l0[0] && low[1] == l0[1] && high[0] == h0[0] && high[1] == h0[1]);
      reference(o, kind, g0, l0, h0, p0, plc[p], mesh[m].m);
      if (kind == 2) { o.kv("reffacets", plc[p].facets); o.kv("refholes", plc[p].holes); }
    }
    else in.die();
  }
};

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  std::ifstream f(argv[1]);
  FILE* out = fopen(argv[2], "a");
  int start = atoi(argv[3]);
  std::string line;
  for (int k = 0; std::getline(f, line); ++k) {
    if (k < start) continue;
    for (int round = 0; round != 2; ++round) {          // the first round fills caches that stay
      vp::In in(line);
      std::string id = in.word();
      if (round == 0) { vp::Out o; o.kv("ev", "begin"); o.kv("id", id); vp::emit(out, o.done()); }
      Session ss;
      int n = in.integer();
      for (int i = 0; i != n; ++i) ss.gens.push_back(in.reals());
      n = in.integer();
      for (int i = 0; i != n; ++i) ss.pts.push_back(in.reals());
      n = in.integer();
      sweep();
      long live0 = liveBlocks;
      badEvents = 0;
      vp::Out o;
      o.kv("ev", "end"); o.kv("id", id);
      o.key("ops"); o.s << "[";
      bool first = true;
      for (int i = 0; i != n; ++i) {
        vp::Out e;
        ss.run(in.word(), in, e);
        ss.view(e);
        e.kv("bad", (long long)badEvents);
        std::string t = e.done();
        if (!first) o.s << ","; first = false;
        o.s << t.substr(0, t.size() - 1);
      }
      // Free what is left.
      for (int s = 0; s != 4; ++s) {
        if (ss.tess[s].t) API(polytope_tessellator_free(ss.tess[s].t));
        if (ss.mesh[s].m) API(polytope_tessellation_free(ss.mesh[s].m));
        if (ss.plc[s].p) API(polytope_plc_free(ss.plc[s].p));
      }
      o.s << "]";
      sweep();
      o.kv("leaked", (long long)(liveBlocks - live0));
      o.kv("bad", (long long)badEvents);
      if (round == 1) vp::emit(out, o.done());
    }
  }
  MPI_Finalize();
  return 0;
}
