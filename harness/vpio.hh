// Shared plumbing of the harnesses: token input, JSON output.
#ifndef VPIO_HH
#define VPIO_HH
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <unistd.h>

namespace vp {

struct Out {
  std::ostringstream s;
  bool first;
  Out(): first(true) { s << std::setprecision(17) << "{"; }
  void key(const char* k) { if (!first) s << ","; first = false; s << "\"" << k << "\":"; }
  void kv(const char* k, long long v) { key(k); s << v; }
  void kv(const char* k, int v) { key(k); s << v; }
  void kv(const char* k, unsigned v) { key(k); s << v; }
  void kv(const char* k, size_t v) { key(k); s << v; }
  void kv(const char* k, bool v) { key(k); s << (v ? "true" : "false"); }
  void kv(const char* k, double v) { key(k); num(v); }
  void kv(const char* k, const std::string& v) { key(k); str(v); }
  void kv(const char* k, const char* v) { key(k); str(v); }
  void num(double v) {
    if (v != v) s << "\"nan\""; else if (v > 1e300) s << "\"inf\""; else if (v < -1e300) s << "\"-inf\""; else s << v;
  }
  void str(const std::string& v) {
    s << '"';
    for (size_t i = 0; i != v.size(); ++i) {
      char c = v[i];
      if (c == '"' || c == '\\') s << '\\' << c;
      else if (c == '\n') s << "\\n";
      else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); s << b; }
      else s << c;
    }
    s << '"';
  }
  void val(int v) { s << v; }
  void val(unsigned v) { s << v; }
  void val(long long v) { s << v; }
  void val(size_t v) { s << v; }
  void val(double v) { num(v); }
  void val(const std::string& v) { str(v); }
  template<typename T> void val(const std::vector<T>& v) {
    s << "["; for (size_t i = 0; i != v.size(); ++i) { if (i) s << ","; val(v[i]); } s << "]";
  }
  template<typename T> void val(const std::set<T>& v) {
    val(std::vector<T>(v.begin(), v.end()));
  }
  template<typename A, typename B> void val(const std::pair<A, B>& v) {
    s << "["; val(v.first); s << ","; val(v.second); s << "]";
  }
  template<typename T> void kv(const char* k, const std::vector<T>& v) { key(k); val(v); }
  template<typename T> void kv(const char* k, const std::set<T>& v) { key(k); val(v); }
  std::string done() { s << "}\n"; return s.str(); }
};

// A line of whitespace separated tokens.
struct In {
  std::istringstream s;
  In(const std::string& line): s(line) {}
  std::string word() { std::string w; s >> w; if (!s) die(); return w; }
  long integer() { std::string w = word(); return strtol(w.c_str(), 0, 10); }
  double real() { std::string w = word(); return strtod(w.c_str(), 0); }
  std::vector<double> reals() { std::vector<double> r(integer()); for (size_t i = 0; i != r.size(); ++i) r[i] = real(); return r; }
  std::vector<int> ints() { std::vector<int> r(integer()); for (size_t i = 0; i != r.size(); ++i) r[i] = integer(); return r; }
  std::vector<unsigned> unsigneds() { std::vector<unsigned> r(integer()); for (size_t i = 0; i != r.size(); ++i) r[i] = integer(); return r; }
  bool more() { s >> std::ws; return !s.eof(); }
  void die() { fprintf(stderr, "vp: bad input line\n"); fflush(stderr); _exit(77); }
};

// Append a record and make it durable before the next call into the library.
inline void emit(FILE* f, const std::string& s) { fputs(s.c_str(), f); fflush(f); }

}
#endif
