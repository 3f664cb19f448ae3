// Histories of writes to and reads from one serialization buffer.
//
// usage: serial IN OUT START
// A line: ID PREFIX NOPS OP...
//   PREFIX bytes of garbage are in the buffer before the first write;
//   OP = w KIND VALUE   serialize a value
//      | r              deserialize the oldest value not read yet
// The record lists, per operation, the value in canonical form (bit patterns)
// and the positions in the buffer before and after it.
#include "polytope.hh"
#include "polytope_serialize.hh"
#include "Point.hh"
#include "Segment.hh"
#include "vpio.hh"
#include <stdint.h>
#include <deque>
using namespace polytope;

static std::string hex(uint64_t v) { char b[24]; snprintf(b, 24, "%llx", (unsigned long long)v); return b; }
static uint64_t bits(const std::string& w) { return strtoull(w.c_str(), 0, 16); }

// Canonical text and its inverse, per type.
template<typename T> struct V {
  static void canon(const T& v, std::string& s) { uint64_t b = 0; memcpy(&b, &v, sizeof(T)); s += hex(b) + " "; }
  static void parse(vp::In& in, T& v) { uint64_t b = bits(in.word()); memcpy(&v, &b, sizeof(T)); }
  static void make(uint64_t& g, T& v) { g = g * 6364136223846793005ull + 1442695040888963407ull; uint64_t b = g >> 7; memcpy(&v, &b, sizeof(T)); }
};
template<typename T> struct V<std::vector<T> > {
  static void canon(const std::vector<T>& v, std::string& s) {
    s += "[" + hex(v.size()) + " ";
    for (size_t i = 0; i != v.size(); ++i) V<T>::canon(v[i], s);
    s += "] ";
  }
  static void parse(vp::In& in, std::vector<T>& v) {
    std::string w = in.word();
    if (w[0] == '*') {                     // *N:SEED makes a long one
      size_t n = strtoul(w.c_str() + 1, 0, 10);
      uint64_t g = strtoull(w.c_str() + w.find(':') + 1, 0, 10);
      v.resize(n);
      for (size_t i = 0; i != n; ++i) V<T>::make(g, v[i]);
    } else {
      v.resize(strtoul(w.c_str(), 0, 10));
      for (size_t i = 0; i != v.size(); ++i) V<T>::parse(in, v[i]);
    }
  }
  static void make(uint64_t& g, std::vector<T>& v) {
    g = g * 6364136223846793005ull + 1442695040888963407ull;
    v.resize((g >> 40) % 4);
    for (size_t i = 0; i != v.size(); ++i) V<T>::make(g, v[i]);
  }
};
template<typename C> struct V<Point2<C> > {
  static void canon(const Point2<C>& v, std::string& s) { s += "("; V<C>::canon(v.x, s); V<C>::canon(v.y, s); V<unsigned>::canon(v.index, s); s += ") "; }
  static void parse(vp::In& in, Point2<C>& v) { V<C>::parse(in, v.x); V<C>::parse(in, v.y); V<unsigned>::parse(in, v.index); }
  static void make(uint64_t& g, Point2<C>& v) { V<C>::make(g, v.x); V<C>::make(g, v.y); V<unsigned>::make(g, v.index); }
};
template<typename C> struct V<Point3<C> > {
  static void canon(const Point3<C>& v, std::string& s) { s += "("; V<C>::canon(v.x, s); V<C>::canon(v.y, s); V<C>::canon(v.z, s); V<unsigned>::canon(v.index, s); s += ") "; }
  static void parse(vp::In& in, Point3<C>& v) { V<C>::parse(in, v.x); V<C>::parse(in, v.y); V<C>::parse(in, v.z); V<unsigned>::parse(in, v.index); }
  static void make(uint64_t& g, Point3<C>& v) { V<C>::make(g, v.x); V<C>::make(g, v.y); V<C>::make(g, v.z); V<unsigned>::make(g, v.index); }
};
template<int D> struct V<Segment<D> > {
  typedef typename Segment<D>::Point P;
  static void canon(const Segment<D>& v, std::string& s) { V<P>::canon(v.a, s); V<P>::canon(v.b, s); }
  static void parse(vp::In& in, Segment<D>& v) { V<P>::parse(in, v.a); V<P>::parse(in, v.b); }
  static void make(uint64_t& g, Segment<D>& v) { V<P>::make(g, v.a); V<P>::make(g, v.b); }
};
template<int D> struct V<PLC<D, double> > {
  typedef PLC<D, double> T;
  static void canon(const T& v, std::string& s) {
    s += "{"; V<std::vector<std::vector<int> > >::canon(v.facets, s); V<std::vector<std::vector<std::vector<int> > > >::canon(v.holes, s); s += "} ";
  }
  static void parse(vp::In& in, T& v) { V<std::vector<std::vector<int> > >::parse(in, v.facets); V<std::vector<std::vector<std::vector<int> > > >::parse(in, v.holes); }
  static void make(uint64_t& g, T& v) { V<std::vector<std::vector<int> > >::make(g, v.facets); V<std::vector<std::vector<std::vector<int> > > >::make(g, v.holes); }
};
template<int D, typename C> struct V<ReducedPLC<D, C> > {
  typedef ReducedPLC<D, C> T;
  static void canon(const T& v, std::string& s) {
    s += "{"; V<std::vector<std::vector<int> > >::canon(v.facets, s); V<std::vector<std::vector<std::vector<int> > > >::canon(v.holes, s);
    V<std::vector<C> >::canon(v.points, s); s += "} ";
  }
  static void parse(vp::In& in, T& v) {
    V<std::vector<std::vector<int> > >::parse(in, v.facets); V<std::vector<std::vector<std::vector<int> > > >::parse(in, v.holes);
    V<std::vector<C> >::parse(in, v.points);
  }
  static void make(uint64_t& g, T& v) {
    V<std::vector<std::vector<int> > >::make(g, v.facets); V<std::vector<std::vector<std::vector<int> > > >::make(g, v.holes); V<std::vector<C> >::make(g, v.points);
  }
};

// Long texts are replaced by their length and two digests.
static std::string brief(const std::string& s) {
  if (s.size() <= 300) return s;
  uint64_t a = 1469598103934665603ull, b = 88172645463325252ull;
  for (size_t i = 0; i != s.size(); ++i) { a = (a ^ (unsigned char)s[i]) * 1099511628211ull; b = (b ^ (b << 13)) + (unsigned char)s[i]; b ^= b >> 7; b ^= b << 17; }
  return "#" + hex(s.size()) + ":" + hex(a) + ":" + hex(b);
}

typedef std::vector<char> Buffer;
struct Op {
  virtual ~Op() {}
  virtual std::string write(vp::In& in, Buffer& b) = 0;
  virtual std::string read(Buffer::const_iterator& i, const Buffer::const_iterator& e) = 0;
};
template<typename T> struct OpT: public Op {
  std::string write(vp::In& in, Buffer& b) {
    T v; V<T>::parse(in, v);
    std::string s; V<T>::canon(v, s);
    serialize(v, b);
    std::string s2; V<T>::canon(v, s2);
    return brief(s) + (s == s2 ? "" : " <changed by the write>");
  }
  std::string read(Buffer::const_iterator& i, const Buffer::const_iterator& e) {
    T v = T();
    deserialize(v, i, e);
    std::string s; V<T>::canon(v, s);
    return brief(s);
  }
};

int main(int argc, char** argv) {
  std::map<std::string, Op*> ops;
#define KIND(n, ...) ops[n] = new OpT<__VA_ARGS__ >
  typedef std::vector<int> vi; typedef std::vector<vi> vvi; typedef std::vector<vvi> vvvi;
  typedef std::vector<unsigned> vu; typedef std::vector<double> vd;
  KIND("char", char); KIND("i32", int); KIND("u32", unsigned); KIND("i64", int64_t); KIND("u64", uint64_t); KIND("f64", double); KIND("f32", float);
  KIND("p2d", Point2<double>); KIND("p2i", Point2<int>); KIND("p2l", Point2<int64_t>); KIND("p2u", Point2<uint64_t>);
  KIND("p3d", Point3<double>); KIND("p3i", Point3<int>); KIND("p3u", Point3<uint64_t>);
  KIND("seg", Segment<2>);
  KIND("vc", std::vector<char>); KIND("vi", vi); KIND("vu", vu); KIND("vd", vd); KIND("vl", std::vector<uint64_t>);
  KIND("vvi", vvi); KIND("vvu", std::vector<vu>); KIND("vvd", std::vector<vd>);
  KIND("vvvi", vvvi); KIND("vvvd", std::vector<std::vector<vd> >); KIND("vvvvi", std::vector<vvvi>);
  KIND("vp2d", std::vector<Point2<double> >); KIND("vp2i", std::vector<Point2<int> >); KIND("vvp2d", std::vector<std::vector<Point2<double> > >); KIND("vp3d", std::vector<Point3<double> >);
  KIND("plc2", PLC<2, double>); KIND("plc3", PLC<3, double>);
  KIND("rplc2", ReducedPLC<2, double>); KIND("rplc3", ReducedPLC<3, double>); KIND("rplc2i", ReducedPLC<2, int>);
  KIND("vrplc2", std::vector<ReducedPLC<2, double> >); KIND("vplc2", std::vector<PLC<2, double> >);
  std::ifstream f(argv[1]);
  FILE* out = fopen(argv[2], "a");
  int start = atoi(argv[3]);
  std::string line;
  for (int k = 0; std::getline(f, line); ++k) {
    if (k < start) continue;
    vp::In in(line);
    std::string id = in.word();
    { vp::Out o; o.kv("ev", "begin"); o.kv("id", id); vp::emit(out, o.done()); }
    Buffer buf;
    size_t prefix = in.integer();
    uint64_t g = 12345 + prefix;
    for (size_t i = 0; i != prefix; ++i) { g = g * 6364136223846793005ull + 1; buf.push_back(char(g >> 50)); }
    std::deque<std::string> kinds;
    size_t pos = prefix;
    int n = in.integer();
    vp::Out o;
    o.kv("ev", "end"); o.kv("id", id); o.kv("prefix", prefix);
    o.key("ops"); o.s << "[";
    for (int i = 0; i != n; ++i) {
      std::string w = in.word(), kind, val;
      size_t from, to;
      bool kept = true;
      Buffer old(buf);
      if (w == "w") {
        kind = in.word();
        if (!ops.count(kind)) in.die();
        from = buf.size();
        val = ops[kind]->write(in, buf);
        to = buf.size();
        kinds.push_back(kind);
        kept = to >= from && std::equal(old.begin(), old.end(), buf.begin());
      } else {
        if (kinds.empty()) in.die();
        kind = kinds.front();
        kinds.pop_front();
        const Buffer& cb = buf;
        Buffer::const_iterator it = cb.begin() + pos;
        from = pos;
        val = ops[kind]->read(it, cb.end());
        to = pos = it - cb.begin();
        kept = old == buf;
      }
      if (i) o.s << ",";
      vp::Out e;
      e.kv("op", w); e.kv("kind", kind); e.kv("val", val); e.kv("from", from); e.kv("to", to); e.kv("kept", kept);
      std::string t = e.done();
      o.s << t.substr(0, t.size() - 1);
    }
    o.s << "]";
    vp::emit(out, o.done());
  }
  return 0;
}
