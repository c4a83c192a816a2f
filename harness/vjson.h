// Minimal JSON value for the verification harnesses (independent of /repo's picojson).
#ifndef VJSON_H
#define VJSON_H
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
#include <stdexcept>
#include <cstring>
struct J
{
  enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t;
  bool b; long long n; std::string s; std::vector<J> a; std::vector<std::pair<std::string, J> > o;
  J() : t(NUL), b(false), n(0) {}
  J(bool v) : t(BOOL), b(v), n(0) {}
  J(int v) : t(NUM), b(false), n(v) {}
  J(unsigned v) : t(NUM), b(false), n(v) {}
  J(long v) : t(NUM), b(false), n(v) {}
  J(long long v) : t(NUM), b(false), n(v) {}
  J(unsigned long v) : t(NUM), b(false), n((long long)v) {}
  J(const char* v) : t(STR), b(false), n(0), s(v) {}
  J(const std::string& v) : t(STR), b(false), n(0), s(v) {}
  template <class X> J(const std::vector<X>& v) : t(ARR), b(false), n(0) { for (const auto& x : v) a.push_back(J(x)); }
  static J arr() { J j; j.t = ARR; return j; }
  static J obj() { J j; j.t = OBJ; return j; }
  bool has(const char* k) const { for (auto& p : o) if (p.first == k) return true; return false; }
  const J& operator[](const char* k) const
  {
    for (auto& p : o) if (p.first == k) return p.second;
    throw std::runtime_error(std::string("missing field ") + k);
  }
  J& set(const char* k, const J& v)
  {
    for (auto& p : o) if (p.first == k) { p.second = v; return *this; }
    t = OBJ; o.push_back(std::make_pair(std::string(k), v)); return *this;
  }
  J& push(const J& v) { t = ARR; a.push_back(v); return *this; }
  std::vector<std::string> strs() const { std::vector<std::string> r; for (auto& x : a) r.push_back(x.s); return r; }
  std::vector<unsigned> uints() const { std::vector<unsigned> r; for (auto& x : a) r.push_back((unsigned)x.n); return r; }
  std::vector<int> ints() const { std::vector<int> r; for (auto& x : a) r.push_back((int)x.n); return r; }
  void dump(std::string& r) const
  {
    char buf[40];
    switch (t) {
    case NUL: r += "null"; break;
    case BOOL: r += b ? "true" : "false"; break;
    case NUM: snprintf(buf, sizeof buf, "%lld", n); r += buf; break;
    case STR:
      r += '"';
      for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 0x20) { snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
        else r += (char)c;
      }
      r += '"'; break;
    case ARR: r += '['; for (size_t i = 0; i < a.size(); ++i) { if (i) r += ','; a[i].dump(r); } r += ']'; break;
    case OBJ: r += '{'; for (size_t i = 0; i < o.size(); ++i) { if (i) r += ','; J(o[i].first).dump(r); r += ':'; o[i].second.dump(r); } r += '}'; break;
    }
  }
  std::string str() const { std::string r; dump(r); return r; }
  static J parse(const std::string& x) { const char* p = x.c_str(); J j = val(p); return j; }
private:
  static void ws(const char*& p) { while (*p && strchr(" \t\r\n", *p)) ++p; }
  static void utf8(std::string& r, unsigned c)
  {
    if (c < 0x80) r += (char)c;
    else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
    else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
  }
  static std::string sval(const char*& p)
  {
    std::string r; ++p;
    while (*p && *p != '"') {
      if (*p == '\\') {
        ++p;
        switch (*p) {
        case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break;
        case 'b': r += '\b'; break; case 'f': r += '\f'; break;
        case 'u': {
          unsigned c = strtoul(std::string(p + 1, 4).c_str(), 0, 16); p += 4;
          if (c >= 0xD800 && c < 0xDC00 && p[1] == '\\' && p[2] == 'u') {
            unsigned d = strtoul(std::string(p + 3, 4).c_str(), 0, 16); p += 6; c = 0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00);
          }
          utf8(r, c); break; }
        default: r += *p;
        }
        ++p;
      } else r += *p++;
    }
    if (*p) ++p;
    return r;
  }
  static J val(const char*& p)
  {
    ws(p);
    if (*p == '{') { J j = obj(); ++p; ws(p); while (*p && *p != '}') { ws(p); std::string k = sval(p); ws(p); ++p; j.o.push_back(std::make_pair(k, val(p))); ws(p); if (*p == ',') ++p; ws(p); } ++p; return j; }
    if (*p == '[') { J j = arr(); ++p; ws(p); while (*p && *p != ']') { j.a.push_back(val(p)); ws(p); if (*p == ',') ++p; ws(p); } ++p; return j; }
    if (*p == '"') return J(sval(p));
    if (!strncmp(p, "true", 4)) { p += 4; return J(true); }
    if (!strncmp(p, "false", 5)) { p += 5; return J(false); }
    if (!strncmp(p, "null", 4)) { p += 4; return J(); }
    char* e; long long v = strtoll(p, &e, 10); if (e == p) throw std::runtime_error("bad json"); p = e; return J(v);
  }
};
// A real value that the specification expects to be integral: the integer, or a marker no specification value equals.
inline J jint(double x)
{
  double r = std::floor(x + 0.5);
  if (std::isfinite(x) && std::fabs(x - r) < 1e-6 && std::fabs(r) < 2e9) return J((long long)r);
  return J(-1999999999LL);
}
#endif
