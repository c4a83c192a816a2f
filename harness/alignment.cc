// Drives WordAligMatrix, AlignmentExtractor and the thot_alig_op program (path: argv[1]).
#include "vh.h"
#include "AlignmentExtractor.h"
#include <sstream>
#include <sys/stat.h>
static std::string prog, dir;
static J mat(const WordAligMatrix& m)
{
  J c = J::arr(); for (unsigned i = 0; i < m.get_I(); ++i) { J r = J::arr(); for (unsigned j = 0; j < m.get_J(); ++j) r.push(m.getValue(i, j)); c.push(r); }
  return J::obj().set("I", m.get_I()).set("J", m.get_J()).set("c", c);
}
static J words(const std::vector<std::string>& v, size_t from = 0) { J r = J::arr(); for (size_t k = from; k < v.size(); ++k) r.push(v[k]); return r; }
static J pairOf(AlignmentExtractor& e)
{
  WordAligMatrix m = e.get_wamatrix();
  return J::obj().set("n", jint(e.get_numReps())).set("s", words(e.get_s())).set("t", words(e.get_t())).set("m", mat(m));
}
static std::string giza(const J& f, bool nonl)
{
  std::string o;
  for (auto& p : f.a) {
    o += "# " + std::to_string((int)p["n"].n) + "\n"; bool first = true;
    for (auto& w : p["t"].a) { o += (first ? "" : " ") + w.s; first = false; }
    o += "\n";
    for (int i = 0; i <= (int)p["s"].a.size(); ++i) {
      o += (i ? p["s"].a[i - 1].s : std::string("NULL")) + " ({ ";
      for (size_t j = 0; j < p["t"].a.size(); ++j) {
        int n = 0; if (i) n = p["m"]["c"].a[i - 1].a[j].n; else { n = 1; for (auto& r : p["m"]["c"].a) if (r.a[j].n) n = 0; }
        while (n-- > 0) o += std::to_string(j + 1) + " ";
      }
      o += "}) ";
    }
    o += "\n";
  }
  if (nonl && !o.empty()) o.erase(o.size() - 2);
  return o;
}
static void put(const std::string& f, const std::string& s) { FILE* o = fopen(f.c_str(), "w"); fputs(s.c_str(), o); fclose(o); }
// Independent reader of the alignment file format.
static J parse(const std::string& file)
{
  J r = J::arr(); FILE* f = fopen(file.c_str(), "r"); if (!f) return r;
  std::vector<std::string> ls(1); int c; while ((c = fgetc(f)) != EOF) if (c == '\n') ls.push_back(""); else ls.back() += (char)c;
  fclose(f);
  for (size_t k = 0; k + 2 < ls.size(); k += 3) {
    std::istringstream a(ls[k]), b(ls[k + 1]), d(ls[k + 2]); std::string x; std::vector<std::string> h, t, s; std::vector<std::vector<int> > lk;
    while (a >> x) h.push_back(x);
    while (b >> x) t.push_back(x);
    while (d >> x) { s.push_back(x); lk.push_back(std::vector<int>(t.size())); d >> x; while (d >> x && x != "})") { int p = atoi(x.c_str()); if (p >= 1 && p <= (int)t.size()) ++lk.back()[p - 1]; else s.back() += "?"; } }
    J m = J::arr(); for (size_t i = 1; i < lk.size(); ++i) { J row = J::arr(); for (int v : lk[i]) row.push(v); m.push(row); }
    r.push(J::obj().set("n", h.size() == 2 ? atoi(h[1].c_str()) : 1).set("s", words(s, 1)).set("t", words(t))
      .set("m", J::obj().set("I", (int)s.size() - 1).set("J", (int)t.size()).set("c", m)));
  }
  return r;
}
struct H : VH
{
  WordAligMatrix* reg[3];
  H() { for (auto& r : reg) r = 0; }
  ~H() { for (auto& r : reg) delete r; }
  void reset(const J&) { for (auto& r : reg) { delete r; r = new WordAligMatrix; } }
  J all() { J r = J::arr(); for (auto& m : reg) r.push(mat(*m)); return r; }
  void apply(J& e)
  {
    std::string op = e["op"].s;
    if (op == "file") {
      put(dir + "/f.A3", giza(e["f"], e["nonl"].b));
      std::string cmd = prog + (e["gt"].b ? " -gt " : " -g ") + dir + "/f.A3 -o " + dir + "/out"; std::string mode = e["mode"].s;
      if (mode != "pair") cmd += " -e"; if (mode == "compact") cmd += " -compact";
      std::string ops;
      for (size_t k = 0; k < e["ops"].a.size(); ++k) {
        const J& x = e["ops"].a[k]; std::string g = dir + "/g" + std::to_string(k);
        put(g, giza(x["f"], e["nonl"].b));
        if (e["chain"].b) ops += "-" + x["o"].s + " " + g + " " + (x["tr"].b ? "1" : "0") + "\n";
        else cmd += " -" + x["o"].s + " " + g + (x["tr"].b ? "" : " -no-transpose");
      }
      if (e["chain"].b) { put(dir + "/ops", ops); cmd += " -f " + dir + "/ops"; }
      unlink((dir + "/out.A3.final").c_str());
      e.set("rc", system((cmd + " > /dev/null 2>&1").c_str()));
      e.set("out", parse(dir + "/out.A3.final"));
      return;
    }
    if (op == "read") {
      std::string f = dir + "/f.A3"; unsigned fmt = GIZA_ALIG_FILE_FORMAT;
      if (e["fmt"].s == "giza") put(f, giza(e["f"], e["nonl"].b));
      else {
        std::ostringstream o; FILE* fo = fopen(f.c_str(), "w");
        for (auto& p : e["f"].a) {
          std::vector<std::string> ns(1, "NULL"), t; for (auto& w : p["s"].a) ns.push_back(w.s); for (auto& w : p["t"].a) t.push_back(w.s);
          WordAligMatrix m(p["m"]["I"].n, p["m"]["J"].n); for (unsigned i = 0; i < m.get_I(); ++i) for (unsigned j = 0; j < m.get_J(); ++j) m.setValue(i, j, p["m"]["c"].a[i].a[j].n);
          std::string hd = "# " + std::to_string((int)p["n"].n);
          if (e["fmt"].s == "my") printAlignmentInMyFormat(o, ns, t, m, p["n"].n); else if (e["fmt"].s == "myf") printAlignmentInMyFormat(fo, ns, t, m, p["n"].n);
          else if (e["fmt"].s == "gf") printAlignmentInGIZAFormat(fo, ns, t, m, hd.c_str()); else printAlignmentInGIZAFormat(o, ns, t, m, hd.c_str());
        }
        fputs(o.str().c_str(), fo); fclose(fo);
        if (e["fmt"].s[0] == 'm') fmt = ALIG_OP_FILE_FORMAT;
      }
      AlignmentExtractor x; x.open(f.c_str(), fmt);
      J out = J::arr(), tr = J::arr(), ag = J::arr();
      while (x.getNextAlignment()) { out.push(pairOf(x)); x.transposeAlig(); tr.push(pairOf(x)); }
      x.rewind(); while (x.getNextAlignment()) ag.push(pairOf(x));
      x.close();
      e.set("out", out).set("trout", tr).set("again", ag);
      return;
    }
    WordAligMatrix& a = *reg[(int)e["r"].n];
    if (op == "load") {
      const J& m = e["m"]; a.init(m["I"].n, m["J"].n);
      for (unsigned i = 0; i < a.get_I(); ++i) for (unsigned j = 0; j < a.get_J(); ++j) { int v = m["c"].a[i].a[j].n; if (v == 1) a.set(i, j); else if (v) a.setValue(i, j, v); }
    }
    else if (op == "op") {
      WordAligMatrix& b = *reg[(int)e["q"].n]; std::string o = e["o"].s;
      if (o == "and") a &= b; else if (o == "or") a |= b; else if (o == "xor") a ^= b; else if (o == "sum") a += b; else if (o == "sub") a -= b;
      else if (o == "sym1") a.symmetr1(b); else if (o == "sym2") a.symmetr2(b); else if (o == "grd") a.growDiagFinal(b);
    }
    else if (op == "assign") a = *reg[(int)e["q"].n];
    else if (op == "copy") { WordAligMatrix b(a); reg[(int)e["r"].n] = new WordAligMatrix(b); delete &a; }
    else if (op == "flip") a.flip();
    else if (op == "transpose") a.transpose();
    else if (op == "reset") a.reset();
    else if (op == "clear") a.clear();
    else if (op == "set") a.set();
    else if (op == "cell") a.setValue(e["i"].n - 1, e["j"].n - 1, e["v"].n);
    else if (op == "putvec") { std::vector<PositionIndex> v; for (auto& k : e["v"].a) v.push_back(k.n); a.putAligVec(v); }
    else if (op == "tovec") { std::vector<PositionIndex> v; e.set("ok", a.getAligVec(v)); J r = J::arr(); for (auto k : v) r.push(k); e.set("v", r); }
    else if (op == "equal") e.set("eq", a == *reg[(int)e["q"].n]);
    else if (op == "pred") {
      J row = J::arr(), col = J::arr(), hor = J::arr(), ver = J::arr(), nei = J::arr();
      for (unsigned i = 0; i < a.get_I(); ++i) row.push(a.iAligned(i));
      for (unsigned j = 0; j < a.get_J(); ++j) col.push(a.jAligned(j));
      for (unsigned i = 0; i < a.get_I(); ++i) {
        J h = J::arr(), v = J::arr(), n = J::arr();
        for (unsigned j = 0; j < a.get_J(); ++j) { h.push(a.ijHasHorizNeighbours(i, j)); v.push(a.ijHasVertNeighbours(i, j)); n.push(a.ijInNeighbourhood(i, j)); }
        hor.push(h); ver.push(v); nei.push(n);
      }
      e.set("row", row).set("col", col).set("hor", hor).set("ver", ver).set("nei", nei);
    }
    e.set("regs", all());
  }
};
int main(int argc, char** argv)
{
  prog = argv[1];
  char t[] = "./alig_XXXXXX"; if (!mkdtemp(t)) return 9; dir = t;
  H h; int r = vh_main(h);
  for (const char* f : {"f.A3", "ops", "out.A3.final", "g0", "g1", "g2"}) unlink((dir + "/" + f).c_str());
  rmdir(dir.c_str());
  return r;
}
