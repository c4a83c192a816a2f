// Drives the language models, their files, the programs that count n-grams and convert and use models.
#include <bits/stdc++.h>
#include "vh.h"
#include "StatModelDefs.h"
#include <sys/wait.h>
#define protected public
#define private public
#include "IncrNgramLM.h"
#include "IncrJelMerNgramLM.h"
#include "IncrJelMerLevelDbNgramLM.h"
#undef protected
#undef private
typedef std::vector<std::string> S;
static std::string dir, perpProg, ldbProg, scripts;
struct Lm {
  std::unique_ptr<_incrNgramLM<Count, Count> > m; std::string kind;
  _incrJelMerNgramLM<Count, Count>* jm() { return dynamic_cast<_incrJelMerNgramLM<Count, Count>*>(m.get()); }
  void make(const std::string& k) {
    kind = k; m.reset();
    if (k == "jm") m.reset(new IncrJelMerNgramLM); else if (k == "ldb") m.reset(new IncrJelMerLevelDbNgramLM); else m.reset(new IncrNgramLM);
  }
};
struct H : VH
{
  Lm lm[3];
  void reset(const J&) { for (auto& x : lm) x.m.reset(); int r = system(("rm -rf '" + dir + "'/*").c_str()); (void)r; }
  void done() { reset(J()); }
  std::string path(const J& f) { return dir + "/" + f.s; }
  static long long q(Count c) { double x = (float)c; return std::isnan(x) || fabs(x) > 5e8 ? -1 : llround(x * 4); }
  static long long mil(double x) { return std::isnan(x) ? -1 : x > 2000 ? 2000000000 : llround(x * 1e6); }
  static long long lg(double x) { return std::isnan(x) ? 999999999 : x < -1e4 ? -100000000 : x > 1e4 ? 100000000 : llround(x * 1e4); }
  static S strs(const J& a) { S r; for (auto& x : a.a) r.push_back(x.s); return r; }
  void corpus(const std::string& f, const J& ss) { std::ofstream o(f); for (auto& s : ss.a) { for (size_t i = 0; i < s.a.size(); ++i) o << (i ? " " : "") << s.a[i].s; o << "\n"; } }
  J sent(_incrNgramLM<Count, Count>& m, const S& s) {
    J ps = J::arr(), ls = J::arr(); std::vector<WordIndex> st; m.getStateForBeginOfSentence(st);
    auto add = [&](double lp) { ps.push(mil(exp(lp))); ls.push(lg(lp / M_LN10)); };
    for (auto& w : s) add((double)m.getNgramLgProbGivenStateStr(w, st));
    add((double)m.getLgProbEndGivenState(st));
    return J::obj().set("ps", ps).set("ls", ls).set("tot", lg((double)m.getSentenceLog10ProbStr(s)));
  }
  void lines(J& e, const std::string& f) {
    J r = J::arr(); std::ifstream in(f); std::string l;
    while (std::getline(in, l)) {
      std::istringstream is(l); S w; std::string x; while (is >> x) w.push_back(x);
      if (w.size() < 3) { r.push(J::arr().push(J::arr()).push(0).push(0)); continue; }
      long long a = llround(atof(w[w.size() - 2].c_str()) * 4), b = llround(atof(w.back().c_str()) * 4);
      if (b == 0) continue;
      J g = J::arr(); for (size_t i = 0; i + 2 < w.size(); ++i) g.push(w[i]);
      r.push(J::arr().push(g).push(a).push(b));
    }
    e.set("lines", r);
  }
  static int run(const std::string& c) { int r = system(c.c_str()); return WIFEXITED(r) ? WEXITSTATUS(r) : 128; }
  J perp(_incrNgramLM<Count, Count>& m, const J& ss) { J r = J::arr(); for (auto& s : ss.a) if (s.a.size()) r.push(sent(m, strs(s))); return r; }
  void weights(J& e, Lm& x) { J w = J::arr(); for (double d : x.jm()->weights) w.push(llround(d * 1000)); e.set("w", w); }
  void apply(J& e)
  {
    std::string op = e["op"].s; Lm& x = lm[e.has("o") ? (int)e["o"].n : 0];
    if (op == "new") { x.make(e["kind"].s); }
    else if (op == "train") {
      int r = 0; Count c(e["c"].n / 4.0), lb(e["lb"].n / 4.0); std::vector<S> v; for (auto& s : e["ss"].a) v.push_back(strs(s));
      if (e["each"].n) { for (auto& s : v) r |= x.m->trainSentence(s, c, lb); } else r = x.m->trainSentenceVec(v, c, lb);
      e.set("ret", r);
    }
    else if (op == "order") { x.m->setNgramOrder((int)e["n"].n); }
    else if (op == "cnt") {
      S g = strs(e["g"]), h(g.begin(), g.end() - (g.empty() ? 0 : 1));
      e.set("ch", q(x.m->cHistStr(g)));
      if (g.size()) {
        e.set("cn", q(x.m->cNgramStr(g.back(), h)));
        std::vector<WordIndex> v; bool known = true; for (auto& w : g) { known = known && x.m->existSymbol(w); v.push_back(x.m->stringToWordIndex(w)); }
        WordIndex last = v.back(); std::vector<WordIndex> vh(v.begin(), v.end() - 1);
        e.set("cn2", known ? q(x.m->cNgram(last, vh)) : 0).set("ch2", known ? q(x.m->cHist(v)) : 0);
      }
    }
    else if (op == "prob") {
      S h = strs(e["h"]); std::string w = e["w"].s;
      e.set("p", mil(exp((double)x.m->getNgramLgProbStr(w, h))));
      std::vector<WordIndex> v; for (auto& z : h) v.push_back(x.m->stringToWordIndex(z));
      e.set("pi", mil(exp((double)x.m->getNgramLgProb(x.m->stringToWordIndex(w), v))));
      e.set("pe", mil(exp((double)x.m->getLgProbEnd(v))));
      e.set("pes", mil(exp((double)x.m->getLgProbEndStr(h))));
    }
    else if (op == "sent") { e.set("r", sent(*x.m, strs(e["s"]))); }
    else if (op == "perp") {
      std::string f = dir + "/corpus"; corpus(f, e["ss"]);
      unsigned ns = 0, nw = 0; LgProb t; double p; int r = x.m->perplexity(f.c_str(), ns, nw, t, p);
      e.set("r", perp(*x.m, e["ss"])).set("ret", r).set("ns", (int)ns).set("nw", (int)nw).set("tot", lg((double)t)).set("lp", lg(log10(p)));
    }
    else if (op == "voc") {
      bool f; e.set("n", (int)x.m->getVocabSize()).set("order", (int)x.m->getNgramOrder());
      e.set("zero", mil((double)x.m->getZeroGramProb()));
      e.set("marks", x.m->wordIndexToString(x.m->getBosId(f)) + " " + x.m->wordIndexToString(x.m->getEosId(f)));
      J k = J::arr(); for (auto& w : e["ws"].a) { std::string b = x.m->wordIndexToString(x.m->stringToWordIndex(w.s)); k.push(b); } e.set("back", k);
    }
    else if (op == "weights") {
      std::ofstream o(path(e["f"]) + ".weights"); const J& t = e["wt"];
      o << t["order"].n << " " << t["nb"].n << " " << t["bs"].n; for (auto& w : t["w"].a) { char b[32]; snprintf(b, sizeof b, " %.3f", w.n / 1000.0); o << b; } o << "\n";
    }
    else if (op == "mkfile") {
      std::ofstream o(path(e["f"])); int blanks = (int)e["blanks"].n, k = 0;
      for (auto& l : e["lines"].a) {
        if (blanks && ++k % 3 == 0) o << (k % 2 ? "\n" : "  \n");
        for (auto& w : l.a[0].a) o << w.s << " "; char b[64]; snprintf(b, sizeof b, blanks ? " %.2f  %.2f" : "%.2f %.2f", l.a[1].n / 4.0, l.a[2].n / 4.0); o << b << "\n";
      }
      if (blanks) o << "\n";
    }
    else if (op == "print") { int r = x.m->print(path(e["f"]).c_str()); e.set("ret", r); if (x.kind != "ldb") lines(e, path(e["f"])); }
    else if (op == "load") { e.set("ret", (int)x.m->load(path(e["f"]).c_str())); }
    else if (op == "clear") { x.m->clear(); if (e["voc"].n) x.m->clearVocab(); }
    else if (op == "upd") {
      std::string f = dir + "/corpus"; corpus(f, e["ss"]); unsigned ns, nw; LgProb t; double p0 = 0, p1 = 0;
      x.m->perplexity(f.c_str(), ns, nw, t, p0);
      int r = x.jm()->updateModelWeights(f.c_str());
      x.m->perplexity(f.c_str(), ns, nw, t, p1);
      e.set("ret", r).set("l0", lg(log10(p0))).set("l1", lg(log10(p1))); weights(e, x);
    }
    else if (op == "counts") {
      std::string f = path(e["f"]), c = dir + "/corpus", env = "cd '" + dir + "' && mkdir -p tmp && export AWK=awk SORT=sort SPLIT=split SED=sed GREP=grep MKTEMP=mktemp PIPE_FAIL=pipe_fail sortT=yes sortpars='-S 131072' bindir='" + scripts + "' && ";
      corpus(c, e["ss"]); std::string prog = e["frag"].n ? "thot_get_ngram_counts_mr" : "thot_get_ngram_counts";
      std::string cmd = env + "bash '" + scripts + "/" + prog + "' -c corpus -n " + std::to_string((int)e["n"].n) + (e["unk"].n ? " -unk" : "") + (e["frag"].n ? " -tdir '" + dir + "/tmp' -f " + std::to_string((int)e["frag"].n) : "");
      e.set("ret", run(cmd + " > '" + f + "'")); lines(e, f);
    }
    else if (op == "toldb") { std::string g = path(e["g"]); e.set("ret", run("'" + ldbProg + "' -o '" + g + "' < '" + path(e["f"]) + "' >/dev/null 2>&1")); }
    else if (op == "perpprog") {
      std::string c = dir + "/corpus", f = path(e["f"]); corpus(c, e["ss"]);
      IncrJelMerNgramLM z; z.load(f.c_str()); z.setNgramOrder((int)e["n"].n); e.set("r", perp(z, e["ss"]));
      e.set("ret", run("'" + perpProg + "' -c '" + c + "' -lm '" + f + "' -n " + std::to_string((int)e["n"].n) + " > '" + dir + "/out' 2>/dev/null"));
      std::ifstream in(dir + "/out"); std::string l; e.set("ns", -1).set("nw", -1).set("tot", 0).set("lp", 0);
      while (std::getline(in, l)) {
        size_t k = l.rfind(": "); double v = k == std::string::npos ? 0 : atof(l.c_str() + k + 2);
        if (l.find("Number of sentences") != std::string::npos) e.set("ns", (int)v);
        if (l.find("Number of words") != std::string::npos) e.set("nw", (int)v);
        if (l.find("Total log10") != std::string::npos) e.set("tot", lg(v));
        if (l.find("Perplexity") != std::string::npos) e.set("lp", lg(log10(v)));
      }
    }
  }
};
int main(int argc, char** argv)
{
  if (argc > 1) perpProg = argv[1]; if (argc > 2) ldbProg = argv[2]; if (argc > 3) scripts = argv[3];
  char t[] = "./ngXXXXXX"; char* p = mkdtemp(t); char* rp = realpath(p, NULL); dir = rp;
  H h; int r = vh_main(h); for (auto& x : h.lm) x.m.reset(); int s = system(("rm -rf '" + dir + "'").c_str()); (void)s; return r;
}
