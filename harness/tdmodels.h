// Small real models (language model, translation model, word list), written by the models themselves, and a configuration file.
#ifndef TDMODELS_H
#define TDMODELS_H
#include "IncrJelMerNgramLM.h"
#include "IncrHmmP0AligModel.h"
#include "IncrPhraseModel.h"
using namespace std;
static vector<string> sv(const string& s) { istringstream i(s); vector<string> v; string w; while (i >> w) v.push_back(w); return v; }
static void sh(const string& c) { if (system(c.c_str())) { fprintf(stderr, "failed: %s\n", c.c_str()); abort(); } }
static void make_models(const string& base)
{
  sh("rm -rf " + base + " && mkdir " + base);
  vector<pair<string, string>> b = {{"s0", "t0"}, {"s1", "t1"}, {"s0 s1", "t0 t1"}};
  { IncrJelMerNgramLM lm; lm.setNgramOrder(2); for (auto& p : b) lm.trainSentence(sv(p.second), 1, 0, 0); lm.print((base + "/lm").c_str()); }
  { IncrHmmP0AligModel dir, inv;
    for (auto& p : b) {
      pair<unsigned, unsigned> r;
      for (auto& w : sv(p.first)) { dir.addSrcSymbol(w); inv.addTrgSymbol(w); }
      for (auto& w : sv(p.second)) { dir.addTrgSymbol(w); inv.addSrcSymbol(w); }
      dir.addSentPair(sv(p.first), sv(p.second), 1, r); inv.addSentPair(sv(p.second), sv(p.first), 1, r);
    }
    for (int i = 0; i < 3; ++i) { dir.trainAllSents(0); inv.trainAllSents(0); }
    dir.print((base + "/tm_invswm").c_str()); inv.print((base + "/tm_swm").c_str()); }
  { IncrPhraseModel pm; pm.loadSrcVocab((base + "/tm_swm.svcb").c_str()); pm.loadTrgVocab((base + "/tm_swm.tvcb").c_str());
    for (auto& p : b) pm.strIncrCountsOfEntry(sv(p.second), sv(p.first), 1);
    pm.print((base + "/tm").c_str()); }
  ofstream(base + "/tm.lambda") << "0.5 0.5\n";
  ofstream(base + "/lm.wp") << "t0 t1\n";
}
static void make_cfg(const string& dir)
{
  ofstream c(dir + "/cfg");
  c << "-tm " << dir << "/tm\n-lm " << dir << "/lm\n-W 20\n-S 10\n-A 10\n-nomon 0\n-G 0\n-h 6\n-be\n-olp 0 0 1 5 1 0\n-tmw 1 1 1 1 1 0 0 0\n";
}
#endif
