// Drives the edit distance and error correction model classes.
#include "vh.h"
#include "EditDistForVecString.h"
#include "EditDistForVec.h"
#include "PfsmEcmForWg.h"
typedef std::vector<std::string> SV;
typedef std::vector<unsigned int> UV;
struct Ecm : PfsmEcmForWg { EditDistForVecString& ed() { return editDistForVecStr; } };
static std::string str(const J& a) { std::string s; for (auto& k : a.a) s += (char)k.n; return s; }
static SV strs(const J& a) { SV r; for (auto& k : a.a) r.push_back(str(k)); return r; }
static J codes(const std::string& s) { J r = J::arr(); for (unsigned char k : s) r.push(J((int)k)); return r; }
static J codes(const SV& v) { J r = J::arr(); for (auto& s : v) r.push(codes(s)); return r; }
static J jv(const UV& v) { J r = J::arr(); for (auto k : v) r.push(k); return r; }
static J jn(unsigned a, unsigned b, unsigned c, unsigned d) { J r = J::arr(); r.push(a).push(b).push(c).push(d); return r; }
struct H : VH
{
  EditDistForStr* es; EditDistForVec<int>* ev; Ecm* m; Ecm* pm;
  SV x; std::vector<Ecm::EcmScoreInfo> esi;
  H() : es(0), ev(0), m(0), pm(0) {}
  ~H() { delete es; delete ev; delete m; delete pm; }
  void reset(const J&) { delete es; delete ev; delete m; delete pm; es = new EditDistForStr; ev = new EditDistForVec<int>; m = new Ecm; pm = new Ecm; x.clear(); esi.clear(); esi.push_back(m->constructInitEsi()); m->ed().setErrorModel(0, 1, 1, 1); }
  void state(J& e)
  {
    J rows = J::arr(), preds = J::arr(), np = J::arr();
    for (size_t k = 0; k < esi.size(); ++k) {
      J r = J::arr(); for (double s : m->obtainScrVecFromEsi(esi[k])) r.push(jint(s)); rows.push(r);
      np.push(m->numberOfPosInEsi(esi[k]));
      if (k) { J p = J::arr(); for (int v : m->obtainLastInsPrefWordVecFromEsi(esi[k])) p.push(v); preds.push(p); }
    }
    e.set("rows", rows).set("preds", preds).set("npos", np);
  }
  SV given(const J& e) { SV y = strs(e["y"]); if (!y.empty() && e["fin"].b) y.back() += ' '; return y; }
  void apply(J& e)
  {
    std::string op = e["op"].s;
    if (op == "costs") {
      double h = e["h"].n, i = e["i"].n, s = e["s"].n, d = e["d"].n;
      es->setErrorModel(h, i, s, d); ev->setErrorModel(h, i, s, d); m->ed().setErrorModel(h, i, s, d);
    }
    else if (op == "chr") {
      std::string a = str(e["x"]), b = str(e["y"]); unsigned h, i, s, d; UV o;
      e.set("d", jint(es->calculateEditDist(a, b)));
      e.set("d2", jint(es->calculateEditDistOps(a, b, h, i, s, d))); e.set("n", jn(h, i, s, d));
      std::vector<int> va, vb; for (auto& k : e["x"].a) va.push_back(k.n * 1000); for (auto& k : e["y"].a) vb.push_back(k.n * 1000);
      e.set("vd", jint(ev->calculateEditDistOps(va, vb, h, i, s, d))); e.set("vn", jn(h, i, s, d));
      e.set("p", jint(es->calculateEditDistPrefixOps(a, b, o))); e.set("po", jv(o));
      e.set("p2", jint(es->calculateEditDistPrefix(a, b)));
      e.set("q", jint(es->calculateEditDistPrefixOpsNoPrefDel(a, b, o))); e.set("qo", jv(o));
    }
    else if (op == "wrd") {
      SV a = strs(e["x"]), b = strs(e["y"]), g = given(e), r; unsigned h, i, s, d; UV o, k;
      e.set("d", jint(m->ed().calculateEditDistOps(a, b, h, i, s, d))); e.set("n", jn(h, i, s, d));
      e.set("sim", jint(m->similarity(a, b)));
      e.set("p", jint(m->ed().calculateEditDistPrefixOps(a, g, o, k))); e.set("po", jv(o));
      e.set("p2", jint(m->ed().calculateEditDistPrefix(a, g)));
      e.set("q", jint(m->ed().calculateEditDistPrefixOpsNoPrefDel(a, g, o, k))); e.set("qo", jv(o));
      e.set("simp", jint(m->similarityGivenPrefix(a, g)));
      m->correctStrGivenPref(a, g, r); e.set("cor", codes(r));
      m->correctStrGivenPrefWg(a, g, r); e.set("corwg", codes(r));
    }
    else if (op == "words") {
      x = strs(e["x"]); esi.clear(); esi.push_back(m->constructInitEsi());
      for (auto& w : x) esi.push_back(m->constructEsi(esi.back(), w));
      state(e);
    }
    else if (op == "feed") {
      SV y = given(e);
      Ecm::EcmScoreInfo prev = esi[0]; m->extendInitialEsi(y, prev, esi[0]);
      for (size_t k = 0; k < x.size(); ++k) m->extendEsi(y, esi[k], x[k], esi[k + 1]);
      state(e);
    }
    else if (op == "drop") { for (int n = 0; n < e["n"].n; ++n) for (auto& s : esi) m->removeLastPosFromEsi(s); state(e); }
    else if (op == "wts") {
      std::vector<float> w; for (auto& k : e["w"].a) w.push_back(k.n);
      if (w.size() > 1) w[1] /= 1000;
      pm->setWeights(w);
      SV z, a(1, "a"), b(1, "b"); J p = J::arr();
      p.push(jint(round(exp(pm->similarity(a, a)) * 1e6))).push(jint(round(exp(pm->similarity(z, a)) * 1e6)));
      p.push(jint(round(exp(pm->similarity(a, b)) * 1e6))).push(jint(round(exp(pm->similarity(a, z)) * 1e6)));
      e.set("p", p);
    }
  }
};
int main() { H h; return vh_main(h); }
