// Drives PhraseExtractionTable, the phrase model trained from alignments and thot_gen_phr_model (path: argv[1]).
#include "vh.h"
#include <bits/stdc++.h>
#define private public
#define protected public
#include "WbaIncrPhraseModel.h"
#undef private
#undef protected

static std::string prog, dir;
static WordAligMatrix mat(const J& m)
{
  WordAligMatrix a(m["I"].n, m["J"].n);
  for (unsigned i = 0; i < a.get_I(); ++i) for (unsigned j = 0; j < a.get_J(); ++j) a.setValue(i, j, m["c"].a[i].a[j].n);
  return a;
}
static PhraseExtractParameters pars(const J& p) { PhraseExtractParameters r; r.monotone = p["mono"].b; r.maxTrgPhraseLength = p["max"].n; r.constraintSrcLen = p["cons"].b; r.countSpurious = p["spur"].b; return r; }
static J words(const std::vector<std::string>& v) { J r = J::arr(); for (auto& w : v) r.push(w); return r; }
static std::vector<std::string> strs(const J& a) { std::vector<std::string> r; for (auto& w : a.a) r.push_back(w.s); return r; }
static J scaled(double x) { return jint(round(x * 100000)); }
static std::string giza(const J& f)
{
  std::string o;
  for (auto& p : f.a) {
    o += "# " + std::to_string((int)p["n"].n) + "\n";
    for (auto& w : p["t"].a) o += w.s + " ";
    o += "\nNULL ({ }) ";
    for (size_t i = 0; i < p["s"].a.size(); ++i) {
      o += p["s"].a[i].s + " ({ ";
      for (size_t j = 0; j < p["t"].a.size(); ++j) for (int n = p["m"]["c"].a[i].a[j].n; n > 0; --n) o += std::to_string(j + 1) + " ";
      o += "}) ";
    }
    o += "\n";
  }
  return o;
}
static J parse(const std::string& file)
{
  J r = J::arr(); FILE* f = fopen(file.c_str(), "r"); if (!f) return r;
  std::string all; int c; while ((c = fgetc(f)) != EOF) all += (char)c; fclose(f);
  std::istringstream in(all); std::string line;
  while (std::getline(in, line)) {
    std::istringstream ws(line); std::string w; std::vector<std::string> p[3]; int k = 0;
    while (ws >> w) if (w == "|||") { if (k < 2) ++k; } else p[k].push_back(w);
    while (p[2].size() < 2) p[2].push_back("-1");
    r.push(J::obj().set("s", words(p[0])).set("t", words(p[1])).set("cs", scaled(atof(p[2][0].c_str()))).set("cst", scaled(atof(p[2][1].c_str()))).set("ct", -1));
  }
  return r;
}
struct H : VH
{
  PhraseExtractionTable* x; WbaIncrPhraseModel* m;
  H() : x(new PhraseExtractionTable), m(0) {}
  ~H() { delete x; delete m; }
  void reset(const J&) { delete m; m = 0; }
  WbaIncrPhraseModel& model() { if (!m) m = new WbaIncrPhraseModel; return *m; }
  J table(WbaIncrPhraseModel& w)
  {
    std::string f = dir + "/m.ttable"; ((_incrPhraseModel&)w).printTTable(f.c_str()); J t = parse(f);
    for (auto& r : t.a) {
      std::vector<std::string> s = strs(r["s"]), u = strs(r["t"]);
      r.set("ct", scaled(w.cHTrg(u)));
      if (fabs((double)w.cHSrcHTrg(s, u) * 1e5 - r["cst"].n) > 2 || fabs((double)w.cHSrc(s) * 1e5 - r["cs"].n) > 2) r.set("cst", -7);
    }
    return t;
  }
  J pairs(std::vector<PhrasePair>& v)
  {
    J r = J::arr();
    for (auto& p : v) {
      J s = J::arr(), t = J::arr(); for (auto& w : p.s_) s.push(atoi(w.c_str() + 1)); for (auto& w : p.t_) t.push(atoi(w.c_str() + 1));
      r.push(J::obj().set("s", s).set("t", t).set("w", scaled(p.weight)));
    }
    return r;
  }
  void apply(J& e)
  {
    std::string op = e["op"].s;
    if (op == "extract" || op == "brf") {
      WordAligMatrix a = mat(e["m"]); std::vector<std::string> ns(1, "NULL"), t; std::vector<PhrasePair> out;
      for (unsigned i = 1; i <= a.get_I(); ++i) ns.push_back("s" + std::to_string(i));
      for (unsigned j = 1; j <= a.get_J(); ++j) t.push_back("t" + std::to_string(j));
      if (op == "extract") x->extractConsistentPhrases(pars(e["p"]), ns, t, a, out); else x->segmBasedExtraction(pars(e["p"]), ns, t, a, out);
      e.set("out", pairs(out));
    }
    else if (op == "train") {
      std::vector<std::vector<std::string> > s(1, strs(e["s"])), t(1, strs(e["t"])); std::vector<WordAligMatrix> a(1, mat(e["m"]));
      model().extModelFromPairAligVec(pars(e["p"]), e["brf"].b, s, t, a, e["n"].n);
      e.set("tab", table(model()));
    }
    else if (op == "table") e.set("tab", table(model()));
    else if (op == "clear") { model().clear(); e.set("tab", table(model())); }
    else if (op == "reload") {
      std::string f = dir + "/p"; model().print(f.c_str());
      WbaIncrPhraseModel* n = new WbaIncrPhraseModel; n->load(f.c_str()); delete m; m = n;
      e.set("tab", table(*m));
    }
    else if (op == "prog" || op == "file") {
      FILE* f = fopen((dir + "/a").c_str(), "w"); fputs(giza(e["f"]).c_str(), f); fclose(f);
      const J& p = e["f"].a[0]["p"]; bool brf = e["f"].a[0]["brf"].b;
      if (op == "file") {
        if (e["gen"].b) model().generateWbaIncrPhraseModel((dir + "/a").c_str(), pars(p), brf);
        else model().extendModel((dir + "/a").c_str(), pars(p), brf);
        e.set("tab", table(model()));
      } else {
        unlink((dir + "/o.ttable").c_str());
        std::string cmd = prog + " -g " + dir + "/a -o " + dir + "/o -m " + std::to_string((int)p["max"].n) + (p["mono"].b ? " -mon" : "") + (brf ? " -brf" : "");
        e.set("rc", system((cmd + " > /dev/null 2>&1").c_str())); e.set("tab", parse(dir + "/o.ttable"));
      }
    }
  }
};
int main(int argc, char** argv)
{
  prog = argv[1];
  char t[] = "./extr_XXXXXX"; if (!mkdtemp(t)) return 9; dir = t;
  int r; { H h; r = vh_main(h); }
  for (const char* f : {"a", "o.ttable", "o.seglentable", "m.ttable", "p.ttable", "p.seglentable"}) unlink((dir + "/" + f).c_str());
  rmdir(dir.c_str());
  return r;
}
