// Drives the real phrase-based translation model and multi-stack decoder with integer-valued stub component models.
#include "vh.h"
namespace std { inline ostream& operator<<(ostream& o, const pair<unsigned, unsigned>& p) { return o << p.first << "," << p.second; } }
#include "PbTransModel.h"
#include "PhrHypNumcovJumps01EqClassF.h"
#include "multi_stack_decoder_rec.h"
#include "TranslationMetadata.h"
#include "WordPenaltyFeat.h"
#include "LangModelFeat.h"
#include "TrgPhraseLenFeat.h"
#include "SrcPhraseLenFeat.h"
#include "SrcPosJumpFeat.h"
#include "DirectPhraseModelFeat.h"
#include "InversePhraseModelFeat.h"
#include "OnTheFlyDictFeat.h"
#include <map>
#include <set>
#include <sstream>
typedef std::vector<WordIndex> WV;
static const char* TW[] = {"a", "ab", "abc", "b", "ba", "c", "x", "ax", "abx"}; // ids 3..11; 9..11 are unknown to every component model
static std::string tstr(long id) { return id == 1 ? UNK_WORD_STR : id >= 3 && id <= 11 ? TW[id - 3] : "?"; }
static std::string sstr(long k) { return "s" + std::to_string(k); }
static long wid(const std::string& s)
{
  if (s == UNK_WORD_STR) return 1;
  for (int i = 0; i < 9; ++i) if (s == TW[i]) return i + 3;
  if (s.size() > 1 && s[0] == 's') return 1000 + atol(s.c_str() + 1);
  return -1;
}
struct Lm : BaseNgramLM<LM_State>
{
  unsigned o; long m; std::vector<int> c;
  double f(const WV& h, long w) { long x = c[0] * w; for (size_t i = 0; i < h.size() && i + 1 < c.size(); ++i) x += c[i + 1] * (long)h[i]; return -(x % m); }
  void put(WordIndex w, LM_State& s) { WV r(1, w); r.insert(r.end(), s.begin(), s.end()); if (r.size() > o - 1) r.resize(o - 1); s.assign(r.begin(), r.end()); }
  LgProb getNgramLgProb(WordIndex w, const WV& vu) { return f(vu, w); }
  LgProb getNgramLgProbStr(std::string s, const std::vector<std::string>&) { abort(); }
  LgProb getLgProbEnd(const WV& vu) { return f(vu, 20); }
  LgProb getLgProbEndStr(const std::vector<std::string>&) { abort(); }
  bool getStateForWordSeq(const WV& ws, LM_State& s) { s.clear(); for (auto w : ws) put(w, s); return true; }
  void getStateForBeginOfSentence(LM_State& s) { s.clear(); put(0, s); }
  LgProb getNgramLgProbGivenState(WordIndex w, LM_State& s) { double r = f(WV(s.begin(), s.end()), w); put(w, s); return r; }
  LgProb getNgramLgProbGivenStateStr(std::string s, LM_State& st) { return getNgramLgProbGivenState(stringToWordIndex(s), st); }
  LgProb getLgProbEndGivenState(LM_State& s) { return f(WV(s.begin(), s.end()), 20); }
  bool existSymbol(std::string s) const { long w = wid(s); return w >= 3 && w <= 8; }
  WordIndex addSymbol(std::string s) { return wid(s); }
  unsigned getVocabSize(void) { return 21; }
  WordIndex stringToWordIndex(std::string s) const { return existSymbol(s) ? wid(s) : UNK_SYMBOL; }
  std::string wordIndexToString(WordIndex w) const { return tstr(w); }
  WordIndex getBosId(bool& f) const { f = true; return 0; }
  WordIndex getEosId(bool& f) const { f = true; return 20; }
  bool loadVocab(const char*) { return false; }
  bool printVocab(const char*) { return false; }
  void clearVocab(void) {}
  bool load(const char*) { return false; }
  bool print(const char*) { return false; }
  unsigned int getNgramOrder(void) { return o; }
  void setNgramOrder(int x) { o = x; }
  size_t size(void) { return 1; }
  void clear(void) {}
};
// The inverse phrase model: its source language is the target of the translation.
struct Pm : BasePhraseModel
{
  long ks, j; std::vector<int> sl, tl;
  std::map<std::pair<WV, WV>, std::pair<long, long> > tab; // (translation source phrase, translation target phrase)
  Prob pk_tlen(unsigned, unsigned) { return 1; }
  LgProb srcSegmLenLgProb(unsigned xk, unsigned xkm1, unsigned) { return -(double)(((xk - xkm1) * tl[0] + xkm1 * tl[1]) % 4); }
  LgProb trgCutsLgProb(int offset) { return -(double)(j * labs(offset)); }
  LgProb trgSegmLenLgProb(unsigned k, const SentSegmentation& sg, unsigned len, unsigned last) { return -(double)(((sg[k].second - sg[k].first + 1) * sl[0] + last * sl[1] + len * sl[2]) % 5); }
  std::pair<long, long> val(const WV& s, const WV& t)
  {
    auto it = tab.find(std::make_pair(s, t));
    if (it != tab.end()) return it->second;
    return std::make_pair(-(10L + (long)s.size() + 2L * (long)t.size()), -(9L + 2L * (long)s.size() + (long)t.size()));
  }
  LgProb logpt_s_(const WV& s, const WV& t) { return (double)val(t, s).second; }
  LgProb logps_t_(const WV& s, const WV& t) { return (double)val(t, s).first; }
  bool getTransFor_s_(const WV&, TrgTableNode&) { abort(); }
  bool getTransFor_t_(const WV& t, SrcTableNode& r)
  {
    r.clear();
    for (auto& e : tab) if (e.first.first == t) r[e.first.second];
    return !r.empty();
  }
  bool getNbestTransFor_s_(const WV&, NbestTableNode<PhraseTransTableNodeData>&) { abort(); }
  bool getNbestTransFor_t_(const WV&, NbestTableNode<PhraseTransTableNodeData>&, int) { abort(); }
  bool load(const char*) { return false; }
  bool print(const char*) { return false; }
  size_t getSrcVocabSize(void) const { return 10; }
  WordIndex stringToSrcWordIndex(std::string s) const { long w = wid(s); return w >= 3 && w <= 8 ? w : UNK_WORD; }
  std::string wordIndexToSrcString(WordIndex w) const { return tstr(w); }
  bool existSrcSymbol(std::string s) const { return stringToSrcWordIndex(s) != UNK_WORD; }
  WordIndex addSrcSymbol(std::string) { abort(); }
  bool loadSrcVocab(const char*) { return false; }
  bool printSrcVocab(const char*) { return false; }
  size_t getTrgVocabSize(void) const { return 10; }
  WordIndex stringToTrgWordIndex(std::string s) const { long w = wid(s) - 1000; return w >= 1 && w <= ks ? 100 + w : UNK_WORD; }
  std::string wordIndexToTrgString(WordIndex w) const { return w > 100 ? sstr(w - 100) : UNK_WORD_STR; }
  bool existTrgSymbol(std::string s) const { return stringToTrgWordIndex(s) != UNK_WORD; }
  WordIndex addTrgSymbol(std::string) { abort(); }
  bool loadTrgVocab(const char*) { return false; }
  bool printTrgVocab(const char*) { return false; }
  size_t size(void) { return tab.size(); }
  void clear(void) {}
};
struct Wp : BaseWordPenaltyModel
{
  std::vector<int> p;
  LgProb wordPenaltyScore(unsigned n) { return -(double)((n * n * p[0]) % 7); }
  LgProb sumWordPenaltyScore(unsigned n) { return -(double)(p[1] * n + p[2]); }
  void clear(void) {}
};
struct Md : TranslationMetadata<PhrScoreInfo>
{
  OnTheFlyDictFeat<PhrScoreInfo> dict; std::vector<float> next, cur;
  std::vector<BasePbTransModelFeature<PhrScoreInfo>*> getOnTheFlyModelFeatures(void) { return std::vector<BasePbTransModelFeature<PhrScoreInfo>*>(1, &dict); }
  void obtainTransConstraints(std::string s, int v = 0) { TranslationMetadata<PhrScoreInfo>::obtainTransConstraints(s, v); cur = next; }
  std::vector<float> getLogLinearModelWeightsForSrcSent(void) { return cur; }
  void clear(void) { TranslationMetadata<PhrScoreInfo>::clear(); cur.clear(); }
};
typedef PbTransModel<PhrHypNumcovJumps01EqClassF> Model;
typedef Model::Hypothesis Hyp;
struct OpenModel : Model { std::string tw(WordIndex w) { return this->wordIndexToTrgString(w); } };
struct OpenWg : WordGraph { const std::vector<std::vector<Score> >& comps() const { return scrCompsVec; } };
struct Sys
{
  Lm lm; Pm pm; Wp wp; Md md; FeaturesInfo<PhrScoreInfo> stdf, cust;
  WordPenaltyFeat<PhrScoreInfo> f1; LangModelFeat<PhrScoreInfo> f2; TrgPhraseLenFeat<PhrScoreInfo> f3; SrcPosJumpFeat<PhrScoreInfo> f4;
  SrcPhraseLenFeat<PhrScoreInfo> f5; DirectPhraseModelFeat<PhrScoreInfo> f6; InversePhraseModelFeat<PhrScoreInfo> f7;
  OpenModel m; OpenWg wg; multi_stack_decoder_rec<Model> d;
};
struct H : VH
{
  Sys* y;
  H() : y(0) {}
  ~H() { delete y; }
  void reset(const J&) { delete y; y = 0; }
  static J q4(double x) { return jint(x * 4); }
  static WV ws(const J& a) { WV r; for (auto& x : a.a) r.push_back(x.n); return r; }
  static std::string tsent(const J& a) { std::string r; for (auto& x : a.a) r += (r.empty() ? "" : " ") + tstr(x.n); return r; }
  static std::vector<float> wv(const J& a) { std::vector<float> r; for (auto& x : a.a) r.push_back(x.n / 4.0f); return r; }
  static std::string src(const J& toks)
  {
    std::string r;
    for (auto& t : toks.a) {
      if (!r.empty()) r += " ";
      if (t.has("c")) {
        r += "<phr_pair_annot> <src_segm>";
        for (auto& k : t["c"].a) r += " " + sstr(k.n);
        r += " </src_segm> <trg_segm> " + tsent(t["t"]) + " </trg_segm> </phr_pair_annot>";
      }
      else r += sstr(t["s"].n);
    }
    return r;
  }
  J res(const Hyp& h)
  {
    J r = J::obj(), sg = J::arr(), cu = J::arr(), w = J::arr(), tx = J::arr(), co = J::arr();
    Hyp::DataType dt = h.getData();
    for (auto& p : dt.sourceSegmentation) { J a = J::arr(); a.push(p.first).push(p.second); sg.push(a); }
    for (auto c : dt.targetSegmentCuts) cu.push(c);
    for (size_t i = 1; i < dt.ntarget.size(); ++i) w.push(wid(y->m.tw(dt.ntarget[i])));
    for (auto& s : y->m.getTransInPlainTextVec(h)) tx.push(wid(s));
    for (double c : y->m.scoreCompsForHyp(h)) co.push(jint(c));
    r.set("segs", sg).set("cuts", cu).set("ws", w).set("txt", tx).set("comps", co).set("sc", q4(h.getScore())).set("ok", y->m.isComplete(h));
    return r;
  }
  void apply(J& e)
  {
    std::string op = e["op"].s;
    if (op == "setup") {
      delete y; y = new Sys;
      const J& l = e["lm"];
      y->lm.o = l["o"].n; y->lm.m = l["m"].n; y->lm.c = l["c"].ints();
      y->pm.ks = e["ks"].n; y->pm.j = e["j"].n; y->pm.sl = e["sl"].ints(); y->pm.tl = e["tl"].ints(); y->wp.p = e["wp"].ints();
      for (auto& p : e["pt"].a) {
        WV s = ws(p["s"]); for (auto& k : s) k += 100;
        y->pm.tab[std::make_pair(s, ws(p["t"]))] = std::make_pair((long)p["d"].n, (long)p["i"].n);
      }
      for (auto& p : e["dict"].a) {
        std::vector<std::string> s, t;
        for (auto& k : p["s"].a) s.push_back(sstr(k.n));
        for (auto& k : p["t"].a) t.push_back(tstr(k.n));
        y->md.dict.addTransOption(s, t, (double)p["v"].n, "");
      }
      y->f1.link_wpm(&y->wp); y->f2.link_lm(&y->lm); y->f3.link_pm(&y->pm); y->f4.link_pm(&y->pm); y->f5.link_pm(&y->pm);
      y->f6.link_pm(&y->pm); y->f7.link_pm(&y->pm); y->f6.set_lambda(1.0); y->f7.set_lambda(1.0);
      y->stdf.featPtrVec = {&y->f1, &y->f2, &y->f3, &y->f4, &y->f5, &y->f6, &y->f7};
      for (long k = e["cust"].n; k > 0; --k) { y->cust.featPtrVec.insert(y->cust.featPtrVec.begin(), y->stdf.featPtrVec.back()); y->stdf.featPtrVec.pop_back(); }
      y->m.link_std_feats_info(&y->stdf); y->m.link_custom_feats_info(&y->cust); y->m.link_trans_metadata(&y->md);
      y->d.link_smt_model(&y->m); y->d.setWordGraphPtr(&y->wg); y->d.enableWordGraph();
    }
    else if (op == "w") y->m.setWeights(wv(e["w"]));
    else if (op == "par") {
      y->d.set_S_par(e["S"].n); y->d.set_I_par(e["I"].n); y->d.set_breadthFirst(e["bf"].b); y->d.useBestScorePruning(e["bsp"].b);
      y->m.set_W_par(e["W"].n / 100.0f); y->m.set_A_par(e["A"].n); y->m.set_E_par(e["E"].n); y->m.set_U_par(e["U"].n); y->m.setHeuristic(e["heur"].n);
    }
    else if (op == "trans") { y->md.next = wv(e["sw"]); e.set("r", res(y->d.translate(src(e["toks"])))); }
    else if (op == "sug") {
      y->md.next = wv(e["sw"]);
      Hyp::DataType dt = y->m.nullHypothesisHypData();
      for (auto& s : e["steps"].a) {
        std::vector<std::string> t; for (auto& k : s["t"].a) t.push_back(tstr(k.n));
        y->m.extendHypData(s["l"].n, s["r"].n, t, dt);
      }
      e.set("r", res(y->d.translateWithSuggestion(src(e["toks"]), dt)));
    }
    else if (op == "ref") e.set("r", res(y->d.translateWithRef(src(e["toks"]), tsent(e["ref"]))));
    else if (op == "ver") e.set("r", res(y->d.verifyCoverageForRef(src(e["toks"]), tsent(e["ref"]))));
    else if (op == "prefix") e.set("r", res(y->d.translateWithPrefix(src(e["toks"]), tsent(e["ref"]) + (e["blank"].b ? " " : ""))));
    else if (op == "long") {
      std::string s = "s1"; for (int i = 1; i < e["n"].n; ++i) s += " s1";
      std::string k = e["kind"].s; Hyp h;
      if (e["n"].n == 0) s = k == "trans" ? e["pad"].s : "";
      if (k == "trans") { y->md.next.clear(); h = y->d.translate(s); }
      else if (k == "ref") h = y->d.translateWithRef(s, "a");
      else if (k == "refr") h = y->d.translateWithRef("s1", s);
      else if (k == "ver") h = y->d.verifyCoverageForRef(s, "a");
      else if (k == "prefix") h = y->d.translateWithPrefix(s, "a");
      else h = y->d.translateWithPrefix("s1", s);
      e.set("empty", h.getData().sourceSegmentation.empty());
      e.set("segn", h.getData().sourceSegmentation.size());
    }
    else if (op == "next") e.set("r", res(y->d.getNextTrans()));
    else if (op == "wg") {
      J as = J::arr(), f = J::arr();
      for (unsigned i = 0; i < y->wg.numArcs(); ++i) {
        WordGraphArc a = y->wg.wordGraphArcId2WordGraphArc(i);
        J r = J::obj(), w = J::arr(), c = J::arr();
        for (auto& s : a.words) w.push(wid(s));
        if (i < y->wg.comps().size()) for (double v : y->wg.comps()[i]) c.push(jint(v));
        r.set("p", a.predStateIndex).set("s", a.succStateIndex).set("w", w).set("sc", q4(a.arcScore)).set("c", c);
        as.push(r);
      }
      for (unsigned s : y->wg.getFinalStateSet()) f.push(s);
      std::map<long, long> np; long tot = 0; np[0] = 1; // arcs are in topological order of creation; count complete paths
      for (auto& a : as.a) np[a["s"].n] = std::min(100000L, np[a["s"].n] + np[a["p"].n]);
      for (auto& x : f.a) tot += np[x.n];
      e.set("small", tot <= 150);
      e.set("arcs", as).set("fin", f).set("init", q4(y->wg.getInitialStateScore()));
    }
    else throw std::runtime_error("op");
  }
};
int main() { H h; return vh_main(h); }
