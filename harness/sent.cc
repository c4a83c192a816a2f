// Drives the sentence pairs of the alignment models, training over ranges, and the program that estimates models.
#include <bits/stdc++.h>
#include "vh.h"
#include "StatModelDefs.h"
#include <sys/wait.h>
#define protected public
#define private public
#include "SmoothedIncrIbm1AligModel.h"
#include "SmoothedIncrIbm2AligModel.h"
#include "IncrHmmAligModel.h"
#include "IncrHmmP0AligModel.h"
#undef protected
#undef private
typedef std::vector<std::string> S;
typedef std::vector<Prob> PP;
static std::string dir, prog, so;
struct H : VH
{
  std::unique_ptr<_incrSwAligModel<PP> > m; std::string kind;
  IncrIbm1AligModel* ibm() { return dynamic_cast<IncrIbm1AligModel*>(m.get()); }
  _incrHmmAligModel* hmm() { return dynamic_cast<_incrHmmAligModel*>(m.get()); }
  std::set<int> tw, sw, sl, tl;
  void make() {
    if (kind == "ibm1") m.reset(new IncrIbm1AligModel); else if (kind == "ibm2") m.reset(new IncrIbm2AligModel);
    else if (kind == "sibm1") m.reset(new SmoothedIncrIbm1AligModel); else if (kind == "sibm2") m.reset(new SmoothedIncrIbm2AligModel);
    else if (kind == "hmm") m.reset(new IncrHmmAligModel); else m.reset(new IncrHmmP0AligModel);
  }
  void reset(const J&) { done(); m.reset(); tw.clear(); sw.clear(); sl.clear(); tl.clear(); }
  void done() { int r = system(("rm -rf '" + dir + "'/*").c_str()); (void)r; }
  S words(const J& a, std::set<int>& seen) { S r; for (int w : a.ints()) { seen.insert(w); r.push_back("w" + std::to_string(w)); } return r; }
  J ids(const S& v) { J r = J::arr(); for (auto& w : v) r.push(w.size() > 1 && w[0] == 'w' ? atoi(w.c_str() + 1) : -1); return r; }
  void put(const std::string& f, const J& a, std::set<int>& seen, bool loose) {
    std::ofstream o(f); size_t n = a.a.size();
    for (size_t i = 0; i < n; ++i) {
      S w = words(a.a[i], seen); if (loose && i % 2) o << "  ";
      for (size_t j = 0; j < w.size(); ++j) o << (j ? (loose ? "   " : " ") : "") << w[j];
      if (loose && i % 3 == 0) o << " ";
      if (!loose || i + 1 < n || w.empty()) o << "\n";
    }
  }
  static std::string q4(long c) { char b[40]; snprintf(b, sizeof b, "%.2f", c / 4.0); return b; }
  std::string path(const J& f, const char* e) { return dir + "/" + f.s + e; }
  static long long k(double x) { return std::isnan(x) ? -999999 : x > 2e6 ? 2000000000 : x < -2e6 ? -2000000000 : llround(x * 1000); }
  J pair(const S& s, const S& t, Count c) { return J::obj().set("s", ids(s)).set("t", ids(t)).set("c", (long long)llround((double)c * 4)); }
  void stat(J& e) {
    bool nan = false; J lex = J::arr(), src = J::arr(), am = J::arr(), sl_ = J::arr(); bool f;
    auto num = [&](WordIndex s, WordIndex t) { float x = ibm() ? ibm()->incrLexTable.getLexNumer(s, t, f) : hmm()->incrLexTable->getLexNumer(s, t, f); if (f && std::isnan(x)) nan = true; return f ? exp((double)x) : 0.0; };
    auto den = [&](WordIndex s) { float x = ibm() ? ibm()->incrLexTable.getLexDenom(s, f) : hmm()->incrLexTable->getLexDenom(s, f); if (f && std::isnan(x)) nan = true; return f ? exp((double)x) : 0.0; };
    std::map<int, double> tm; 
    std::vector<std::pair<int, WordIndex> > ss; ss.push_back({-1, m->stringToSrcWordIndex(NULL_WORD_STR)});
    for (int w : sw) { std::string z = "w" + std::to_string(w); if (m->existSrcSymbol(z)) ss.push_back({w, m->stringToSrcWordIndex(z)}); }
    for (auto& s : ss) {
      double sum = 0;
      for (int w : tw) { std::string z = "w" + std::to_string(w); if (!m->existTrgSymbol(z)) continue; double x = num(s.second, m->stringToTrgWordIndex(z)); sum += x; tm[w] += x; }
      src.push(J::arr().push(s.first).push(k(sum)).push(k(den(s.second))));
    }
    for (auto& t : tm) lex.push(J::arr().push(t.first).push(k(t.second)));
    for (int n : sl) if (n && n <= 5) {
      double a = 0, d = 0;
      if (hmm()) for (unsigned ip = 0; ip <= 2u * n; ++ip) {
        aSourceHmm h; h.prev_i = ip; h.slen = n; auto& t = hmm()->incrHmmAligTable;
        for (unsigned i = 1; i <= 2u * n; ++i) { float x = t.getAligNumer(h, i, f); if (f) { nan |= std::isnan(x); a += exp((double)x); } }
        float x = t.getAligDenom(h, f); if (f) { nan |= std::isnan(x); d += exp((double)x); }
      }
      else if (IncrIbm2AligModel* q = dynamic_cast<IncrIbm2AligModel*>(m.get())) for (unsigned tlen : tl) for (unsigned j = 1; j <= tlen; ++j) {
        aSource z; z.j = j; z.slen = n; z.tlen = tlen; auto& t = q->incrIbm2AligTable;
        for (int i = 0; i <= n; ++i) { float x = t.getAligNumer(z, i, f); if (f) { nan |= std::isnan(x); a += exp((double)x); } }
        float x = t.getAligDenom(z, f); if (f) { nan |= std::isnan(x); d += exp((double)x); }
      }
      am.push(J::arr().push(n).push(k(a)).push(k(d)));
    }
    WeightedIncrNormSlm& L = ibm() ? ibm()->sentLengthModel : hmm()->sentLengthModel;
    for (size_t i = 0; i < L.kVec.size(); ++i) if (L.kVec[i]) sl_.push(J::arr().push((int)i).push((int)L.kVec[i]).push(k(L.swkVec[i])).push(k(L.mkVec[i])).push(k(L.skVec[i])));
    for (int s = 0; s <= 4; ++s) for (int t = 1; t <= 4; ++t) nan |= std::isnan((double)m->sentLenLgProb(s, t));
    e.set("nan", nan).set("lex", lex).set("src", src).set("am", am).set("sl", sl_);
  }
  void lens(const J& a, std::set<int>& k) { for (auto& x : a.a) k.insert(x.a.size()); }
  void apply(J& e)
  {
    std::string op = e["op"].s; std::pair<unsigned, unsigned> r(0, 0);
    if (op == "setup") { kind = e["model"].s; make(); }
    else if (op == "files") {
      bool loose = e.has("loose"); lens(e["s"], sl); lens(e["t"], tl);
      put(path(e["f"], ".src"), e["s"], sw, loose); put(path(e["f"], ".trg"), e["t"], tw, loose);
      if (e.has("c")) { std::ofstream o(path(e["f"], ".srctrgc")); for (int c : e["c"].ints()) o << q4(c) << "\n"; } else unlink(path(e["f"], ".srctrgc").c_str());
    }
    else if (op == "read") {
      bool x = m->readSentencePairs(path(e["f"], ".src").c_str(), path(e["f"], ".trg").c_str(), e["c"].b ? path(e["f"], ".srctrgc").c_str() : "", r);
      e.set("ret", x == THOT_OK).set("num", (int)m->numSentPairs()).set("r", J::arr().push((long long)(int)r.first).push((long long)(int)r.second));
    }
    else if (op == "add") {
      S s = words(e["s"], sw), t = words(e["t"], tw); sl.insert(s.size()); tl.insert(t.size());
      m->addSentPair(s, t, Count(e["c"].n / 4.0f), r);
      e.set("num", (int)m->numSentPairs()).set("r", J::arr().push((int)r.first).push((int)r.second));
    }
    else if (op == "nth") {
      LightSentenceHandler& h = ibm() ? ibm()->sentenceHandler : hmm()->sentenceHandler; unsigned n = e["n"].n;
      S s, t, s2, t2; Count c, c2; int x = m->nthSentPair(n, s, t, c); h.getTrgSent(n, t2); h.getSrcSent(n, s2); h.getCount(n, c2);
      e.set("ret", x == THOT_OK).set("pair", pair(s, t, c)).set("sep", pair(s2, t2, c2));
    }
    else if (op == "print") e.set("ret", m->printSentPairs(path(e["f"], ".src").c_str(), path(e["f"], ".trg").c_str(), path(e["f"], ".srctrgc").c_str()) == THOT_OK);
    else if (op == "train") { m->trainSentPairRange({e["a"].n, e["b"].n}); stat(e); }
    else if (op == "all") { m->trainAllSents(); m->loglikelihoodForAllSents(); stat(e); }
    else if (op == "batch") { m->efficientBatchTrainingForRange({e["a"].n, e["b"].n}); stat(e); }
    else if (op == "batchall") { m->efficientBatchTrainingForAllSents(); stat(e); }
    else if (op == "cap") { m->set_expval_maxnsize(e["n"].n); stat(e); }
    else if (op == "clearinfo") { m->clearInfoAboutSentRange(); stat(e); }
    else if (op == "clear") { m->clear(); stat(e); }
    else if (op == "save") e.set("ret", m->print(path(e["f"], "").c_str()) == THOT_OK);
    else if (op == "load") { if (e.has("fresh")) make(); bool x = m->load(path(e["f"], "").c_str()); e.set("ret", x == THOT_OK).set("num", (int)m->numSentPairs()); stat(e); }
    else if (op == "prog") {
      { std::ofstream i(dir + "/master.ini"); i << "BaseSwAligModel ; " << so << " ; " << kind << " ;" << std::endl; }
      const J& o = e["o"]; std::string md = o["mode"].s, c = "cd '" + dir + "' && timeout 60 '" + prog + "' " + (o["l"].b ? "-l " + e["f"].s : "-s " + e["f"].s + ".src -t " + e["f"].s + ".trg") + " -n " + std::to_string(o["n"].n) + " -o zz";
      if (md == "eb") c += " -eb"; if (md == "incr" || md == "inter") c += " -i"; if (md == "mini") c += " -mb " + std::to_string(o["mb"].n);
      if (o["r"].n >= 0) c += " -r " + std::to_string(o["r"].n); if (md == "inter") c += " -in"; if (o["c"].b) c += " -c"; if (o.has("nl")) c += " -nl";
      int rc = system((c + " >/dev/null 2>&1").c_str()); make();
      bool x = rc == 0 && m->load((dir + "/zz").c_str()) == THOT_OK;
      e.set("ret", x).set("num", (int)m->numSentPairs()); stat(e);
    }
    else throw std::runtime_error("unknown op " + op);
  }
};
int main(int argc, char** argv)
{
  if (argc > 2) prog = argv[1], so = argv[2];
  char t[] = "./sntXXXXXX"; char b[4096]; dir = mkdtemp(t); dir = realpath(dir.c_str(), b);
  H h; int r = vh_main(h); rmdir(dir.c_str()); return r;
}
