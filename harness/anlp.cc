// Drives the word-graph processor for assisted translation.
#include "vh.h"
#include "PfsmEcmForWg.h"
#include "WgProcessorForAnlp.h"
typedef std::vector<std::string> SV;
struct Ecm : PfsmEcmForWg { void costs(double h, double i, double s, double d) { editDistForVecStr.setErrorModel(h, i, s, d); } };
static std::string str(const J& a) { std::string s; for (auto& k : a.a) s += (char)k.n; return s; }
static J codes(const std::string& s) { J r = J::arr(); for (unsigned char k : s) r.push(J((int)k)); return r; }
static J codes(const SV& v) { J r = J::arr(); for (auto& s : v) r.push(codes(s)); return r; }
struct H : VH
{
  WordGraph* g; Ecm* m; WgProcessorForAnlp<Ecm>* p;
  H() : g(0), m(0), p(0) {}
  ~H() { clr(); }
  void clr() { delete p; delete m; delete g; }
  void reset(const J&) { clr(); g = 0; m = new Ecm; p = new WgProcessorForAnlp<Ecm>; p->link_ecm_wg(m); }
  void apply(J& e)
  {
    std::string op = e["op"].s;
    if (op == "graph") {
      WordGraph* old = g;
      g = new WordGraph;
      for (auto& a : e["arcs"].a) { SV w; for (auto& k : a["w"].a) w.push_back(str(k)); g->addArc(a["p"].n, a["s"].n, w, a["sc"].n); }
      for (auto& f : e["fin"].a) g->addFinalState(f.n);
      g->setInitialStateScore(e["init"].n);
      m->costs(e["h"].n, e["i"].n, e["s"].n, e["d"].n);
      p->set_wgw(e["wgw"].n); p->set_ecmw(e["ecw"].n);
      p->link_wg(g);
      delete old;
    }
    else if (op == "cor") {
      RejectedWordsSet rej;
      for (auto& r : e["rej"].a) rej.insert(std::make_pair(str(r.a[0]), str(r.a[1])));
      NbestCorrections n = p->correct(str(e["p"]), e["n"].n, rej);
      J res = J::arr();
      for (auto& x : n) { J r = J::arr(); r.push(jint(x.first)).push(codes(x.second)); res.push(r); }
      e.set("res", res);
    }
  }
};
int main() { H h; return vh_main(h); }
