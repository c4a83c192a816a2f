// Drives the tables of counts of the alignment models, the matrices of expected values and the table programs.
#include "vh.h"
#include <bits/stdc++.h>
#include "StatModelDefs.h"
#include <sys/wait.h>
#include <dirent.h>
#include "IncrLexTable.h"
#include "IncrLexLevelDbTable.h"
#include "IncrHmmAligTable.h"
#include "IncrIbm2AligTable.h"
#include "anjiMatrix.h"
#include "anjm1ip_anjiMatrix.h"
typedef std::vector<unsigned> V;
static const unsigned W[] = {0, 1, 2, 3, 253, 254, 255, 64515, 64516, 70000, 16387063, 16387064, 4162314255u, 4162314256u, 4294967294u};
static const float F[] = {0.0f, 0.1f, -1.5f, 1e-30f, 3e38f, 1e-42f, -7.25f, 123456.789f, -0.3f, 16777217.0f};
static int wid(unsigned w) { for (size_t i = 0; i < sizeof W / sizeof *W; ++i) if (W[i] == w) return i; return -99; }
static int fid(float f)
{
  for (size_t i = 0; i < sizeof F / sizeof *F; ++i) if (!memcmp(&F[i], &f, sizeof f)) return i;
  return f == 99 ? -1 : f == SMALL_LG_NUM ? -2 : -99;
}
struct Tab
{
  virtual ~Tab() {}
  virtual void num(const V& k, unsigned x, float f) = 0;
  virtual void den(const V& k, float f) = 0;
  virtual void both(const V& k, unsigned x, float n, float d) = 0;
  virtual float gnum(const V& k, unsigned x, bool& fd) = 0;
  virtual float gden(const V& k, bool& fd) = 0;
  virtual bool load(const char* f) = 0;
  virtual bool print(const char* f) = 0;
  virtual void clear() = 0;
};
template <class T, class K> struct TabT : Tab
{
  T t; std::function<K(const V&)> key;
  TabT(std::function<K(const V&)> k) : key(k) {}
  void num(const V& k, unsigned x, float f) { t.setAligNumer(key(k), x, f); }
  void den(const V& k, float f) { t.setAligDenom(key(k), f); }
  void both(const V& k, unsigned x, float n, float d) { t.setAligNumDen(key(k), x, n, d); }
  float gnum(const V& k, unsigned x, bool& fd) { return t.getAligNumer(key(k), x, fd); }
  float gden(const V& k, bool& fd) { return t.getAligDenom(key(k), fd); }
  bool load(const char* f) { return t.load(f); }
  bool print(const char* f) { return t.print(f); }
  void clear() { t.clear(); }
};
struct LexT : Tab
{
  _incrLexTable* t;
  LexT(_incrLexTable* p) : t(p) {}
  ~LexT() { delete t; }
  void num(const V& k, unsigned x, float f) { t->setLexNumer(W[k[0]], W[x], f); }
  void den(const V& k, float f) { t->setLexDenom(W[k[0]], f); }
  void both(const V& k, unsigned x, float n, float d) { t->setLexNumDen(W[k[0]], W[x], n, d); }
  float gnum(const V& k, unsigned x, bool& fd) { return t->getLexNumer(W[k[0]], W[x], fd); }
  float gden(const V& k, bool& fd) { return t->getLexDenom(W[k[0]], fd); }
  bool load(const char* f) { return t->load(f); }
  bool print(const char* f) { return t->print(f); }
  void clear() { t->clear(); }
};
struct Mat
{
  virtual ~Mat() {}
  virtual bool init(unsigned n, unsigned j, unsigned i, unsigned& m) = 0;
  virtual void set(unsigned n, const V& c, float f) = 0;
  virtual void setf(unsigned m, const V& c, float f) = 0;
  virtual J get(unsigned n, const V& c) = 0;
  virtual J getf(unsigned m, const V& c) = 0;
  virtual bool reset() = 0;
  virtual void max(unsigned m) = 0;
  virtual unsigned max() = 0;
  virtual bool load(const char* f) = 0;
  virtual bool print(const char* f) = 0;
  virtual void clear() = 0;
};
#define G3(A) J::arr().push(fid(t.get A)).push(fid(t.get_invp A)).push(fid(t.get_invlogp A))
#define G3F(A) J::arr().push(fid(t.get_fast A)).push(fid(t.get_invp_fast A)).push(fid(t.get_invlogp_fast A))
#define MATCLASS(NAME, T, ARGS) struct NAME : Mat { T t; \
  bool init(unsigned n, unsigned j, unsigned i, unsigned& m) { return t.init_nth_entry(n, i, j, m); } \
  void set(unsigned n, const V& c, float f) { t.set ARGS(n, f); } \
  void setf(unsigned n, const V& c, float f) { t.set_fast ARGS(n, f); } \
  J get(unsigned n, const V& c) { return G3(ARGS##G(n)); } \
  J getf(unsigned n, const V& c) { return G3F(ARGS##G(n)); } \
  bool reset() { return t.reset_entries(); } \
  void max(unsigned m) { t.set_maxnsize(m); } \
  unsigned max() { return t.get_maxnsize(); } \
  bool load(const char* f) { return t.load(f); } \
  bool print(const char* f) { return t.print(f); } \
  void clear() { t.clear(); } };
#define A2(n, f) (n, c[0], c[1], f)
#define A2G(n) (n, c[0], c[1])
#define A3(n, f) (n, c[0], c[1], c[2], f)
#define A3G(n) (n, c[0], c[1], c[2])
MATCLASS(Mat2, anjiMatrix, A2)
MATCLASS(Mat3, anjm1ip_anjiMatrix, A3)
static void wipe(const std::string& d)
{
  if (DIR* p = opendir(d.c_str())) {
    while (dirent* e = readdir(p)) { std::string n = e->d_name; if (n != "." && n != ".." && unlink((d + "/" + n).c_str())) wipe(d + "/" + n); }
    closedir(p); rmdir(d.c_str());
  }
}
struct H : VH
{
  std::map<std::string, std::unique_ptr<Tab> > tab; std::map<std::string, std::unique_ptr<Mat> > mat; IncrLexLevelDbTable* ldb; std::string dir;
  std::vector<std::string> prog;
  void reset(const J&)
  {
    done();
    char b[] = "./tabXXXXXX"; dir = mkdtemp(b);
    ldb = new IncrLexLevelDbTable;
    tab["lex"].reset(new LexT(new IncrLexTable)); tab["ldb"].reset(new LexT(ldb));
    tab["hmm"].reset(new TabT<IncrHmmAligTable, aSourceHmm>([](const V& k) { aSourceHmm a; a.prev_i = k[0]; a.slen = k[1]; return a; }));
    tab["ibm2"].reset(new TabT<IncrIbm2AligTable, aSource>([](const V& k) { aSource a; a.j = k[0]; a.slen = k[1]; a.tlen = k[2]; return a; }));
    mat["anji"].reset(new Mat2); mat["anjip"].reset(new Mat3);
  }
  void done()
  {
    tab.clear(); mat.clear();
    if (!dir.empty()) { wipe(dir); dir.clear(); }
  }
  // Files of records.
  static size_t klen(const std::string& t) { return t == "lex" ? 1 : t == "hmm" ? 2 : 3; }
  static float val(const J& v, bool lg) { return lg ? (float)log((double)v.n) : F[v.n]; }
  static J back(float f, bool lg) { if (!lg) return fid(f); double x = exp((double)f), r = floor(x + 0.5); return fabs(x - r) < 0.01 ? (int)r : -99; }
  void write(const std::string& t, const J& rows, const std::string& f, bool lg, bool info = false)
  {
    std::ofstream o(f.c_str(), std::ios::binary);
    for (auto& r : rows.a) {
      V k = info ? r.a[0].uints() : r["k"].uints(); k.push_back(info ? r.a[1].n : r["x"].n);
      for (unsigned x : k) { unsigned y = t == "lex" ? W[x] : x; o.write((char*)&y, sizeof y); }
      if (!info) { float n = val(r["n"], lg), d = val(r["d"], lg); o.write((char*)&n, sizeof n); o.write((char*)&d, sizeof d); }
    }
  }
  J read(const std::string& t, const std::string& f, bool lg, bool info = false)
  {
    std::ifstream i(f.c_str(), std::ios::binary); std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
    size_t kl = klen(t), rec = (kl + 1 + (info ? 0 : 2)) * 4; J out = J::arr();
    for (size_t p = 0; p + rec <= s.size(); p += rec) {
      unsigned u[4]; memcpy(u, &s[p], (kl + 1) * 4);
      J k = J::arr(); for (size_t a = 0; a < kl; ++a) k.push(t == "lex" ? wid(u[a]) : (int)u[a]);
      int x = t == "lex" ? wid(u[kl]) : (int)u[kl];
      if (info) { out.push(J::arr().push(k).push(x)); continue; }
      float v[2]; memcpy(v, &s[p + (kl + 1) * 4], 8);
      out.push(J::obj().set("k", k).set("x", x).set("n", back(v[0], lg)).set("d", back(v[1], lg)));
    }
    if (s.size() % rec) out.push("partial record");
    return out;
  }
  int runp(size_t p, std::vector<std::string> args, const std::string& out)
  {
    args.insert(args.begin(), prog.at(p));
    std::vector<char*> v; for (auto& a : args) v.push_back(const_cast<char*>(a.c_str())); v.push_back(0);
    pid_t c = fork();
    if (!c) { int o = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(o, 1); execv(v[0], v.data()); _exit(127); }
    int st; waitpid(c, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 200;
  }
  void program(J& e, const std::string& op)
  {
    std::string out = dir + "/out", in = dir + "/in", t = e.has("t") ? e["t"].s : "lex"; size_t ti = t == "lex" ? 0 : t == "hmm" ? 1 : 2;
    if (op == "sort") { write(t, e["in"], in, false); e.set("ret", runp(ti, {t == "lex" ? "-l" : "-a", in}, out)); e.set("out", read(t, out, false)); }
    else if (op == "merge") {
      std::vector<std::string> fs;
      for (auto& f : e["in"].a) { fs.push_back(in + std::to_string(fs.size())); write(t, f, fs.back(), true); }
      e.set("ret", runp(3 + ti, fs, out)); e.set("out", read(t, out, true));
    }
    else if (op == "prune") {
      write(t, e["in"], in, true); char c[20]; snprintf(c, sizeof c, "%.3f", e["c"].n / 1000.0);
      e.set("ret", runp(6, {"-l", in, "-n", std::to_string(e["n"].n), "-c", c}, out)); e.set("out", read(t, out, true));
    }
    else if (op == "filter") {
      write(t, e["in"], in, false); write(t, e["info"], in + "f", false, true);
      e.set("ret", runp(7, {"-l", in, "-f", in + "f"}, out)); e.set("out", read(t, out, false));
    }
    else if (op == "info") { write(t, e["in"], in, false); e.set("ret", runp(8, {"-l", in}, out)); e.set("out", read(t, out, false, true)); }
    else if (op == "convert") e.set("ret", runp(9, {"-i", dir + "/" + e["f"].s + ".hmm_lexnd", "-o", dir + "/" + e["p"].s}, out));
  }
  void matrix(J& e, Mat& m, const std::string& op)
  {
    if (op == "max") m.max(e["m"].n < 0 ? UINT_MAX : e["m"].n);
    else if (op == "getmax") e.set("m", m.max() == UINT_MAX ? -1 : (int)m.max());
    else if (op == "clear") m.clear();
    else if (op == "reset") e.set("ret", (int)m.reset());
    else if (op == "set") m.set(e["n"].n, e["c"].uints(), F[e["v"].n]);
    else if (op == "get") e.set("g", m.get(e["n"].n, e["c"].uints()));
    else if (op == "print") e.set("ret", (int)m.print((dir + "/" + e["o"].s + e["f"].s).c_str()));
    else if (op == "load") e.set("ret", (int)m.load((dir + "/" + e["o"].s + e["f"].s).c_str()));
    else if (op == "init") {
      unsigned mp = 0;
      int r = m.init(e["n"].n, e["d"].a[0].n, e["d"].a[1].n, mp);
      e.set("ret", r);
      J fast = J::arr();
      if (!r) {
        for (auto& c : e["cs"].a) m.setf(mp, c["c"].uints(), F[c["v"].n]);
        for (auto& c : e["q"].a) fast.push(J::obj().set("c", c).set("g", m.getf(mp, c.uints())));
      }
      e.set("fast", fast);
    }
  }
  void apply(J& e)
  {
    std::string o = e["o"].s, op = e["op"].s;
    if (o == "prog") return program(e, op);
    if (mat.count(o)) return matrix(e, *mat[o], op);
    Tab& t = *tab[o]; V k; if (e.has("k")) k = e["k"].uints();
    bool fd = false; std::string path;
    if (e.has("f")) path = dir + "/" + e["f"].s + (o == "lex" ? ".hmm_lexnd" : o == "ldb" ? "" : "." + o);
    if (op == "num") t.num(k, e["x"].n, F[e["v"].n]);
    else if (op == "den") t.den(k, F[e["v"].n]);
    else if (op == "both") t.both(k, e["x"].n, F[e["v"].n], F[e["d"].n]);
    else if (op == "clear") t.clear();
    else if (op == "gnum") { float f = t.gnum(k, e["x"].n, fd); e.set("v", fid(f)); e.set("found", fd); }
    else if (op == "gden") { float f = t.gden(k, fd); e.set("v", fid(f)); e.set("found", fd); }
    else if (op == "trans") {
      std::set<WordIndex> s; bool r = static_cast<LexT&>(t).t->getTransForTarget(W[e["x"].n], s);
      J a = J::arr(); for (auto w : s) a.push(wid(w));
      e.set("out", a); e.set("ret", r);
    }
    else if (op == "print") e.set("ret", (int)t.print(path.c_str()));
    else if (op == "load") e.set("ret", (int)t.load(path.c_str()));
    else if (op == "init") e.set("ret", (int)ldb->init(path.c_str()));
    else if (op == "drop") e.set("ret", (int)ldb->drop());
  }
};
int main(int c, char** v) { H h; for (int i = 1; i < c; ++i) h.prog.push_back(v[i]); return vh_main(h); }
