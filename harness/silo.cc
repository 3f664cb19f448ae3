// Silo output driver: mpirun -n P silo IN OUT START ROOT
// A line: ID DIM API NWRITES WRITE...
//   API 0: SiloWriter, 1: polytope_write_silo_with_tags, 2: polytope_write_silo
//   WRITE = PREFIX DIRECTORY|- CYCLE HASTIME TIME NFILES, then for every rank
//           MESH HULL, four lists of fields, four lists of tags
//   MESH  = T NPOINTS xy... (tessellated here) | M and a mesh
//   field = NAME SEED (values are made from the seed), tag = NAME ints
// Every case runs in its own directory under ROOT.  Rank r writes OUT.r; rank 0's
// record of a case also holds what a reader of the master files finds.
#include "mpi.h"
#include "vpmesh.hh"
#include "polytope_c.h"
#include "polytope_write_silo.h"
#include "silo.h"
#include <sys/stat.h>
#include <stdint.h>
#include <time.h>
using namespace polytope;
using namespace vp;

namespace polytope {
template <int D> void fill_tessellation(const Tessellation<D, polytope_real_t>& t, polytope_tessellation_t* tess);
}

// ---- what happens to the files ------------------------------------------------
struct Ev { std::string what, path; long long t; };
static std::vector<Ev> g_log;
static std::map<DBfile*, std::string> g_open;
static bool g_on = false;
static long long now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }
static void note(const char* what, const std::string& p, long long t) { Ev e; e.what = what; e.path = p; e.t = t; g_log.push_back(e); }
extern "C" {
DBfile* __real_DBCreateReal(char const* name, int mode, int targ, char const* info, int dbtype);
DBfile* __real_DBOpenReal(char const* name, int dbtype, int mode);
int __real_DBClose(DBfile* f);
DBfile* __wrap_DBCreateReal(char const* name, int mode, int targ, char const* info, int dbtype) {
  DBfile* f = __real_DBCreateReal(name, mode, targ, info, dbtype);
  if (g_on) { note(f ? "create" : "fail", name, now()); if (f) g_open[f] = name; usleep(rand() % 2000); }
  return f;
}
DBfile* __wrap_DBOpenReal(char const* name, int dbtype, int mode) {
  DBfile* f = __real_DBOpenReal(name, dbtype, mode);
  if (g_on) { note(f ? (mode == DB_READ ? "read" : "append") : "fail", name, now()); if (f) g_open[f] = name; usleep(rand() % 2000); }
  return f;
}
int __wrap_DBClose(DBfile* f) {
  if (g_on) { usleep(rand() % 2000); note("close", g_open[f], now()); }
  return __real_DBClose(f);
}
}

static std::string hex(double v) { uint64_t b; memcpy(&b, &v, 8); char s[24]; snprintf(s, 24, "%llx", (unsigned long long)b); return s; }
static std::vector<std::string> hexes(const double* v, size_t n) { std::vector<std::string> r(n); for (size_t i = 0; i != n; ++i) r[i] = hex(v[i]); return r; }
static double made(unsigned seed, size_t i) {
  uint64_t g = (seed * 2654435761ull + i) * 6364136223846793005ull + 1442695040888963407ull;
  g ^= g >> 29; g *= 0xbf58476d1ce4e5b9ull; g ^= g >> 32;
  return (double)(int64_t)g / (double)(1ull << (g % 60));
}

struct Payload {
  std::vector<std::pair<std::string, unsigned> > fields[4];
  std::vector<std::pair<std::string, std::vector<int> > > tags[4];
};

template<int D> void sizes(const Tessellation<D, double>& m, size_t* n) {
  n[0] = m.nodes.size() / D; n[1] = n[2] = m.faces.size(); n[3] = m.cells.size();
}

static const char* CENTER[4] = {"node", "edge", "face", "cell"};

template<int D>
void describe(Out& o, const Tessellation<D, double>& m, const Payload& p) {
  o.kv("dim", D);
  std::vector<std::vector<std::string> > nodes;
  for (size_t i = 0; i + D <= m.nodes.size(); i += D) nodes.push_back(hexes(&m.nodes[i], D));
  o.kv("nodes", nodes);
  o.kv("faces", m.faces); o.kv("cells", m.cells); o.kv("faceCells", m.faceCells); o.kv("bfaces", m.boundaryFaces);
  o.kv("hull", m.convexHull.facets);
  size_t n[4]; sizes(m, n);
  o.key("fields"); o.s << "[";
  bool first = true;
  for (int c = 0; c != 4; ++c) for (size_t k = 0; k != p.fields[c].size(); ++k) {
    std::vector<double> v(n[c]);
    for (size_t i = 0; i != n[c]; ++i) v[i] = made(p.fields[c][k].second, i);
    o.s << (first ? "" : ","); first = false;
    Out f; f.kv("name", p.fields[c][k].first); f.kv("at", CENTER[c]); f.kv("val", hexes(v.data(), v.size())); f.s << "}";
    o.s << f.s.str();
  }
  o.s << "]";
  o.key("tags"); o.s << "[";
  first = true;
  for (int c = 0; c != 4; ++c) for (size_t k = 0; k != p.tags[c].size(); ++k) {
    o.s << (first ? "" : ","); first = false;
    Out f; f.kv("name", p.tags[c][k].first); f.kv("at", CENTER[c]); f.kv("val", p.tags[c][k].second); f.s << "}";
    o.s << f.s.str();
  }
  o.s << "]";
}

template<int D> void readPayload(In& in, Tessellation<D, double>& m, Payload& p) {
  std::string k = in.word();
  if (k == "M") readMesh<D>(in, m);
  else {
    std::vector<double> pts = in.reals();
#if 1
    if (D == 2) { BoostTessellator<double> t; double lo[2] = {0, 0}, hi[2] = {16, 16}; t.tessellate(pts, lo, hi, *(Tessellation<2, double>*)(void*)&m); }
#endif
  }
  readPLC<D>(in, m.convexHull);
  for (int c = 0; c != 4; ++c) { int n = in.integer(); for (int i = 0; i != n; ++i) { std::string w = in.word(); unsigned s = in.integer(); p.fields[c].push_back(std::make_pair(w, s)); } }
  for (int c = 0; c != 4; ++c) { int n = in.integer(); for (int i = 0; i != n; ++i) { std::string w = in.word(); std::vector<int> v = in.ints(); p.tags[c].push_back(std::make_pair(w, v)); } }
}

template<int D>
void doWrite(int api, const Tessellation<D, double>& m, const Payload& p, const std::string& prefix, const std::string& dir,
             int cycle, bool hasTime, double time, int nfiles) {
  size_t n[4]; sizes(m, n);
  std::map<std::string, double*> F[4];
  std::map<std::string, std::vector<int>*> T[4];
  std::vector<std::vector<double> > data;
  data.reserve(64);
  for (int c = 0; c != 4; ++c) {
    for (size_t k = 0; k != p.fields[c].size(); ++k) {
      data.push_back(std::vector<double>(n[c] + 1));
      for (size_t i = 0; i != n[c]; ++i) data.back()[i] = made(p.fields[c][k].second, i);
      F[c][p.fields[c][k].first] = data.back().data();
    }
    for (size_t k = 0; k != p.tags[c].size(); ++k) T[c][p.tags[c][k].first] = const_cast<std::vector<int>*>(&p.tags[c][k].second);
  }
  if (api == 0) {
    bool tags = T[0].size() || T[1].size() || T[2].size() || T[3].size();
    if (tags) SiloWriter<D, double>::write(m, F[0], T[0], F[1], T[1], F[2], T[2], F[3], T[3], prefix, dir, cycle, hasTime ? time : -FLT_MAX, MPI_COMM_WORLD, nfiles, 7);
    else if (cycle < 0 && !hasTime && dir.empty()) SiloWriter<D, double>::write(m, F[0], F[1], F[2], F[3], prefix, MPI_COMM_WORLD, nfiles);
    else if (cycle < 0 && !hasTime) SiloWriter<D, double>::write(m, F[0], F[1], F[2], F[3], prefix, dir, MPI_COMM_WORLD, nfiles);
    else if (dir.empty()) SiloWriter<D, double>::write(m, F[0], F[1], F[2], F[3], prefix, cycle, hasTime ? time : -FLT_MAX, MPI_COMM_WORLD, nfiles);
    else SiloWriter<D, double>::write(m, F[0], F[1], F[2], F[3], prefix, dir, cycle, hasTime ? time : -FLT_MAX, MPI_COMM_WORLD, nfiles);
    return;
  }
  polytope_tessellation_t* t = polytope_tessellation_new(D);
  fill_tessellation<D>(m, t);
  std::vector<char*> fn[4], tn[4]; std::vector<double*> fv[4]; std::vector<int> ts[4]; std::vector<int*> tv[4];
  for (int c = 0; c != 4; ++c) {
    for (auto i = F[c].begin(); i != F[c].end(); ++i) { fn[c].push_back((char*)i->first.c_str()); fv[c].push_back(i->second); }
    for (auto i = T[c].begin(); i != T[c].end(); ++i) { tn[c].push_back((char*)i->first.c_str()); ts[c].push_back(i->second->size()); tv[c].push_back(i->second->data()); }
  }
#define FA(c) (int)fn[c].size(), fn[c].data(), fv[c].data()
#define TA(c) (int)tn[c].size(), tn[c].data(), ts[c].data(), tv[c].data()
  if (api == 1)
    polytope_write_silo_with_tags(t, FA(0), TA(0), FA(1), TA(1), FA(2), TA(2), FA(3), TA(3), prefix.c_str(), dir.c_str(), cycle, hasTime ? time : -FLT_MAX, MPI_COMM_WORLD, nfiles, 9);
  else
    polytope_write_silo(t, FA(0), FA(1), FA(2), FA(3), prefix.c_str(), dir.c_str(), cycle, hasTime ? time : -FLT_MAX, MPI_COMM_WORLD, nfiles, 9);
  polytope_tessellation_free(t);
}

// ---- reading back --------------------------------------------------------------
static std::vector<std::pair<std::string, std::vector<int> > > compound(DBfile* f, const char* name) {
  std::vector<std::pair<std::string, std::vector<int> > > r;
  DBcompoundarray* a = DBInqVarExists(f, name) ? DBGetCompoundarray(f, name) : 0;
  if (!a) return r;
  int at = 0;
  for (int i = 0; i < a->nelems; ++i) {
    std::vector<int> v;
    for (int j = 0; j < a->elemlengths[i] && at < a->nvalues; ++j, ++at) v.push_back(((int*)a->values)[at]);
    r.push_back(std::make_pair(std::string(a->elemnames[i] ? a->elemnames[i] : "?"), v));
  }
  if (at != a->nvalues) r.push_back(std::make_pair(std::string("!"), std::vector<int>(1, a->nvalues - at)));
  DBFreeCompoundarray(a);
  return r;
}
static void putCompound(Out& o, const char* key, const std::vector<std::pair<std::string, std::vector<int> > >& a) {
  o.key(key); o.s << "[";
  for (size_t i = 0; i != a.size(); ++i) { Out e; e.kv("name", a[i].first); e.kv("val", a[i].second); e.s << "}"; o.s << (i ? "," : "") << e.s.str(); }
  o.s << "]";
}

static const char* centering(int c) { return c == DB_NODECENT ? "node" : c == DB_EDGECENT ? "edge" : c == DB_FACECENT ? "face" : c == DB_ZONECENT ? "cell" : "?"; }

// The domain that `ref` ("file:/dir/mesh" relative to dir) stands for.
static std::string domain(const std::string& master, DBfile* mf, const std::string& ref, size_t k, const std::vector<std::string>& names) {
  Out o;
  std::string base = master.substr(0, master.rfind('/') + 1), file = master, path = ref;
  size_t c = ref.find(':');
  if (c != std::string::npos) { file = base + ref.substr(0, c); path = ref.substr(c + 1); }
  std::string dir = path.find('/') == std::string::npos ? "." : path.substr(0, path.rfind('/'));
  o.kv("ref", ref);
  struct stat st;
  DBfile* f = stat(file.c_str(), &st) == 0 ? DBOpen(file.c_str(), DB_HDF5, DB_READ) : 0;
  if (!f) { o.kv("missing", std::string("file")); o.s << "}"; return o.s.str(); }
  if (!path.empty() && path[0] == '/') {}
  if (DBSetDir(f, dir.c_str()) != 0 || !DBInqVarExists(f, "mesh")) { o.kv("missing", std::string("mesh")); o.s << "}"; DBClose(f); return o.s.str(); }
  o.kv("missing", std::string(""));
  DBucdmesh* m = DBGetUcdmesh(f, "mesh");
  o.kv("dim", m->ndims);
  std::vector<std::vector<std::string> > nodes(m->nnodes);
  for (int i = 0; i != m->nnodes; ++i) for (int d = 0; d != m->ndims; ++d) nodes[i].push_back(m->datatype == DB_DOUBLE ? hex(((double*)m->coords[d])[i]) : "?");
  o.kv("nodes", nodes);
  o.kv("cycle", m->cycle); o.kv("time", hex(m->dtime));
  o.kv("nzones", m->zones ? m->zones->nzones : m->phzones ? m->phzones->nzones : -1);
  if (m->zones) {
    DBzonelist* z = m->zones;
    std::vector<std::vector<int> > zones;
    int at = 0;
    for (int s = 0; s < z->nshapes; ++s) for (int q = 0; q < z->shapecnt[s]; ++q) {
      int n = z->shapesize[s] > 0 ? z->shapesize[s] : at < z->lnodelist ? z->nodelist[at++] : 0;
      std::vector<int> l;
      for (int j = 0; j < n && at < z->lnodelist; ++j) l.push_back(z->nodelist[at++] - z->origin);
      zones.push_back(l);
    }
    if (at != z->lnodelist) zones.push_back(std::vector<int>(1, -1));
    o.kv("zones", zones);
  }
  DBphzonelist* p = m->phzones;
  bool own = false;
  if (!p && m->ndims == 3 && DBInqVarExists(f, "mesh_zonelist")) { p = DBGetPHZonelist(f, "mesh_zonelist"); own = true; }
  if (p) {
    std::vector<std::vector<int> > faces, zones; std::vector<int> ext;
    int at = 0;
    for (int i = 0; i < p->nfaces; ++i) { std::vector<int> l; for (int j = 0; j < p->nodecnt[i]; ++j) l.push_back(p->nodelist[at++]); faces.push_back(l); if (p->extface && p->extface[i]) ext.push_back(i); }
    at = 0;
    for (int i = 0; i < p->nzones; ++i) { std::vector<int> l; for (int j = 0; j < p->facecnt[i]; ++j) l.push_back(p->facelist[at++]); zones.push_back(l); }
    o.kv("phfaces", faces); o.kv("phzones", zones); o.kv("ext", ext);
    o.kv("phn", p->nzones);
  }
  if (m->ndims == 2) {
    std::vector<std::vector<int> > bf;
    DBfacelist* b = DBInqVarExists(f, "boundary_faces") ? DBGetFacelist(f, "boundary_faces") : 0;
    if (b) { for (int i = 0; 2 * i + 1 < b->lnodelist; ++i) { std::vector<int> e; e.push_back(b->nodelist[2 * i]); e.push_back(b->nodelist[2 * i + 1]); bf.push_back(e); } DBFreeFacelist(b); }
    o.kv("bfaces", bf);
  }
  DBFreeUcdmesh(m);
  putCompound(o, "conn", compound(f, "conn"));
  putCompound(o, "hull", compound(f, "convexhull"));
  for (int q = 0; q != 4; ++q) putCompound(o, (std::string(CENTER[q]) + "Tags").c_str(), compound(f, (std::string(CENTER[q]) + "_tags").c_str()));
  // The variables, through the master's multivars.
  o.key("fields"); o.s << "[";
  for (size_t v = 0; v != names.size(); ++v) {
    Out e; e.kv("name", names[v]);
    DBmultivar* mv = DBInqVarExists(mf, names[v].c_str()) ? DBGetMultivar(mf, names[v].c_str()) : 0;
    std::string vref = mv && (int)k < mv->nvars ? mv->varnames[k] : "";
    size_t vc = vref.find(':');
    std::string vfile = vc == std::string::npos ? master : base + vref.substr(0, vc), vpath = vc == std::string::npos ? vref : vref.substr(vc + 1);
    DBfile* g = vref.empty() || stat(vfile.c_str(), &st) != 0 ? 0 : DBOpen(vfile.c_str(), DB_HDF5, DB_READ);
    DBucdvar* u = g && DBInqVarExists(g, vpath.c_str()) ? DBGetUcdvar(g, vpath.c_str()) : 0;
    e.kv("at", std::string(u ? centering(u->centering) : "missing"));
    std::vector<std::string> val;
    if (u && u->datatype == DB_DOUBLE && u->nvals == 1) val = hexes((double*)u->vals[0], u->nels);
    e.kv("val", val);
    e.kv("n", mv ? mv->nvars : 0);
    e.s << "}"; o.s << (v ? "," : "") << e.s.str();
    if (u) DBFreeUcdvar(u);
    if (g) DBClose(g);
    if (mv) DBFreeMultivar(mv);
  }
  o.s << "]";
  DBClose(f);
  o.s << "}";
  return o.s.str();
}

static void readBack(Out& o, const std::string& dir, const std::string& stem, int nfiles, const std::vector<std::string>& names) {
  std::string master = dir + "/" + stem + ".silo";
  struct stat st;
  DBfile* f = stat(master.c_str(), &st) == 0 ? DBOpen(master.c_str(), DB_HDF5, DB_READ) : 0;
  o.kv("master", f != 0);
  std::vector<std::string> refs;
  int cycle = -1; double time = 0;
  if (f) {
    DBmultimesh* mm = DBInqVarExists(f, "mesh") ? DBGetMultimesh(f, "mesh") : 0;
    if (mm) { for (int i = 0; i < mm->nblocks; ++i) refs.push_back(mm->meshnames[i] ? mm->meshnames[i] : ""); DBFreeMultimesh(mm); }
    if (DBInqVarExists(f, "dtime")) DBReadVar(f, "dtime", &time);
    if (DBInqVarExists(f, "cycle")) DBReadVar(f, "cycle", &cycle);
  }
  o.kv("mcycle", cycle); o.kv("mtime", hex(time));
  o.key("domains"); o.s << "[";
  for (size_t i = 0; i != refs.size(); ++i) o.s << (i ? "," : "") << domain(master, f, refs[i], i, names);
  o.s << "]";
  if (f) DBClose(f);
  // Each group's own file, and the domains it has and refers to.
  o.key("groups"); o.s << "[";
  for (int g = 0; g != nfiles; ++g) {
    char b[32]; snprintf(b, 32, "/%d/", g);
    std::string gf = dir + b + stem + ".silo";
    DBfile* h = stat(gf.c_str(), &st) == 0 ? DBOpen(gf.c_str(), DB_HDF5, DB_READ) : 0;
    std::vector<std::string> has, rf;
    std::vector<std::vector<std::string> > vrefs;
    if (h) {
      DBtoc* toc = DBGetToc(h);
      for (int i = 0; i < toc->ndir; ++i) has.push_back(toc->dir_names[i]);
      DBmultimesh* mm = DBInqVarExists(h, "mesh") ? DBGetMultimesh(h, "mesh") : 0;
      if (mm) {
        for (int i = 0; i < mm->nblocks; ++i) rf.push_back(mm->meshnames[i] ? mm->meshnames[i] : "");
        DBFreeMultimesh(mm);
      }
      for (size_t v = 0; v != names.size(); ++v) {
        std::vector<std::string> l;
        DBmultivar* mv = DBInqVarExists(h, names[v].c_str()) ? DBGetMultivar(h, names[v].c_str()) : 0;
        if (mv) { for (int i = 0; i < mv->nvars; ++i) { std::string w = mv->varnames[i] ? mv->varnames[i] : ""; l.push_back(DBInqVarExists(h, w.c_str()) ? w : "missing " + w); } DBFreeMultivar(mv); }
        vrefs.push_back(l);
      }
      DBClose(h);
    }
    Out e; e.kv("there", h != 0); e.kv("dirs", has); e.kv("refs", rf); e.kv("vrefs", vrefs); e.s << "}";
    o.s << (g ? "," : "") << e.s.str();
  }
  o.s << "]";
}

template<int D>
void run(In& in, const std::string& id, int api, int rank, int np, FILE* out) {
  int nw = in.integer();
  { Out b; b.kv("id", id); b.kv("ev", "begin"); emit(out, b.done()); }
  Out o; o.kv("id", id); o.kv("ev", "end"); o.kv("rank", rank); o.kv("dim", D); o.kv("api", api);
  std::ostringstream writes;
  struct Key { std::string dir, stem; int nfiles; std::vector<std::string> names; };
  std::vector<Key> keys;
  for (int w = 0; w != nw; ++w) {
    std::string prefix = in.word(), dir = in.word(); if (dir == "-") dir = "";
    int cycle = in.integer(); bool hasTime = in.integer(); double time = in.real(); int nfiles = in.integer();
    Tessellation<D, double> mine; Payload pay;
    for (int r = 0; r != np; ++r) {
      Tessellation<D, double> m; Payload p;
      Tessellation<D, double>& t = r == rank ? mine : m;
      readPayload<D>(in, t, r == rank ? pay : p);
    }
    g_log.clear(); g_open.clear();
    MPI_Barrier(MPI_COMM_WORLD);
    g_on = true;
    doWrite<D>(api, mine, pay, prefix, dir, cycle, hasTime, time, nfiles);
    g_on = false;
    MPI_Barrier(MPI_COMM_WORLD);
    Out e; 
    describe<D>(e, mine, pay);
    e.kv("cycle", cycle); e.kv("hasTime", hasTime); e.kv("time", hex(time));
    e.kv("prefix", prefix); e.kv("dir", dir); e.kv("nfiles", nfiles);
    e.key("log"); e.s << "[";
    for (size_t i = 0; i != g_log.size(); ++i) {
      char t[40]; snprintf(t, 40, "%lld", g_log[i].t);
      Out q; q.kv("k", g_log[i].what); q.kv("f", g_log[i].path); q.kv("t", std::string(t)); q.s << "}"; e.s << (i ? "," : "") << q.s.str();
    }
    e.s << "]";
    Key k;
    std::string p2 = prefix; if (p2.find(".silo") != std::string::npos) p2.erase(p2.find(".silo"));
    char b[64]; snprintf(b, 64, "%s-%d", prefix.c_str(), np);
    k.dir = dir.empty() ? std::string(b) : dir;
    snprintf(b, 64, "-%d", cycle);
    k.stem = p2 + (cycle >= 0 ? b : "");
    k.nfiles = nfiles < 0 ? np : nfiles;
    for (int c = 0; c != 4; ++c) for (size_t i = 0; i != pay.fields[c].size(); ++i) k.names.push_back(pay.fields[c][i].first);
    keys.push_back(k);
    // What the files hold right after this write (later ones may replace them).
    e.s << "}";
    writes << (w ? "," : "") << e.s.str();
  }
  o.key("writes"); o.s << "[" << writes.str() << "]";
  MPI_Barrier(MPI_COMM_WORLD);
  if (rank == 0) {
    o.key("files"); o.s << "[";
    for (size_t i = 0; i != keys.size(); ++i) {
      Out e; readBack(e, keys[i].dir, keys[i].stem, keys[i].nfiles, keys[i].names); e.kv("key", keys[i].dir + "|" + keys[i].stem); e.s << "}";
      o.s << (i ? "," : "") << e.s.str();
    }
    o.s << "]";
  }
  emit(out, o.done());
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  int rank, np;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  MPI_Comm_size(MPI_COMM_WORLD, &np);
  srand(rank + 1);
  DBShowErrors(DB_NONE, 0);
  std::ifstream f(argv[1]);
  char name[32]; snprintf(name, 32, ".%d", rank);
  FILE* out = fopen((std::string(argv[2]) + name).c_str(), "a");
  long start = atol(argv[3]);
  std::string root = argv[4], line;
  for (long k = 0; std::getline(f, line); ++k) {
    if (k < start) continue;
    In in(line);
    std::string id = in.word();
    int dim = in.integer(), api = in.integer();
    std::string d = root + "/" + id;
    if (rank == 0) mkdir(d.c_str(), 0755);
    MPI_Barrier(MPI_COMM_WORLD);
    if (chdir(d.c_str())) _exit(77);
    if (dim == 2) run<2>(in, id, api, rank, np, out); else run<3>(in, id, api, rank, np, out);
    MPI_Barrier(MPI_COMM_WORLD);
  }
  fclose(out);
  MPI_Finalize();
  return 0;
}
