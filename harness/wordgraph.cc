// Drives WordGraph (the real class) with a history of operations and records what it reports.
#include "vh.h"
#include "WordGraph.h"
#include <sstream>
#include <algorithm>
static J scr(double x) { if (x < -900000000.0) return J(-1000000000); return jint(x); }
static J words(const std::vector<std::string>& w) { return J(w); }
static J arcJ(const WordGraphArc& a) { J r = J::obj(); r.set("p", a.predStateIndex); r.set("s", a.succStateIndex); r.set("w", J(a.words).t == J::ARR ? words(a.words) : J::arr()); r.set("sc", scr(a.arcScore)); return r; }
struct Open : WordGraph { const std::vector<std::vector<Score> >& comps() const { return scrCompsVec; } };
struct H : VH
{
  Open* g; std::string dir;
  H() : g(0) {}
  void reset(const J&) { delete g; g = new Open; }
  static std::vector<Score> sv(const J& a) { std::vector<Score> r; for (auto& x : a.a) r.push_back(x.n); return r; }
  static std::vector<float> fv(const J& a) { std::vector<float> r; for (auto& x : a.a) r.push_back(x.n); return r; }
  J arcs()
  {
    J r = J::arr();
    for (unsigned i = 0; i < g->numArcs(); ++i) {
      J a = arcJ(g->wordGraphArcId2WordGraphArc(i));
      a.set("x", g->arcPruned(i));
      J c = J::arr();
      if (i < g->comps().size()) for (double v : g->comps()[i]) c.push(jint(v));
      a.set("c", c);
      r.push(a);
    }
    return r;
  }
  void state(J& e)
  {
    e.set("arcs", arcs());
    J f = J::arr(); for (unsigned s : g->getFinalStateSet()) f.push(s); e.set("fin", f);
    e.set("init", jint(g->getInitialStateScore())); e.set("ns", g->numStates());
    std::vector<std::pair<std::string, float> > w; g->getCompWeights(w);
    J wv = J::arr(), wn = J::arr(); for (auto& p : w) { wv.push(jint(p.second)); wn.push(p.first); }
    e.set("wts", wv).set("wn", wn);
  }
  void apply(J& e)
  {
    std::string op = e["op"].s;
    if (op == "arc") {
      if (e["c"].a.empty()) g->addArc(e["p"].n, e["s"].n, e["w"].strs(), e["sc"].n);
      else g->addArcWithScrComps(e["p"].n, e["s"].n, e["w"].strs(), e["sc"].n, sv(e["c"]));
    }
    else if (op == "final") g->addFinalState(e["s"].n);
    else if (op == "init") g->setInitialStateScore(e["v"].n);
    else if (op == "setw") {
      std::vector<std::pair<std::string, float> > w;
      for (size_t i = 0; i < e["wts"].a.size(); ++i) w.push_back(std::make_pair("c" + std::to_string(i), (float)e["wts"].a[i].n));
      g->setCompWeights(w); state(e);
    }
    else if (op == "prune") {
      int k = e["k"].n;
      float t = k == -1 ? UNLIMITED_DENSITY : k == -2 ? 0 : expf(-k / 2.0);
      e.set("n", g->prune(t)); state(e);
    }
    else if (op == "useful") { g->obtainWgComposedOfUsefulStates(); state(e); }
    else if (op == "topo") { g->orderArcsTopol(); state(e); }
    else if (op == "saveload") {
      std::string f = dir + ".wg";
      e.set("ok", g->print(f.c_str(), e["u"].b) == THOT_OK);
      if (e["fresh"].b) { delete g; g = new Open; }
      e.set("ok2", g->load(f.c_str()) == THOT_OK); state(e);
    }
    else if (op == "loadraw") {  // a word graph file whose arcs come in any order
      std::string f = dir + ".wg";
      std::ofstream o(f.c_str());
      if (!e["wts"].a.empty()) {
        o << "# ";
        for (size_t i = 0; i < e["wts"].a.size(); ++i) { o << "c" << i << " " << e["wts"].a[i].n; if (i + 1 != e["wts"].a.size()) o << " , "; }
        o << "\n";
      }
      for (auto& x : e["fin"].a) o << x.n << " ";
      o << "\n";
      for (auto& a : e["arcs_in"].a) {
        o << a["p"].n << " " << a["s"].n << " " << a["sc"].n << " ";
        if (!a["c"].a.empty()) { o << "||| "; for (auto& x : a["c"].a) o << x.n << " "; o << "||| "; }
        for (size_t i = 0; i < a["w"].a.size(); ++i) o << (i ? " " : "") << a["w"].a[i].s;
        o << "\n";
      }
      o.close();
      e.set("ok", g->load(f.c_str()) == THOT_OK); state(e);
    }
    else if (op == "clear") { g->clear(); state(e); }
    else if (op == "best") {
      std::set<WordGraphArcId> ex; for (auto& x : e["ex"].a) ex.insert(x.n);
      std::vector<WordGraphArc> path;
      double s = e["alt"].a.empty() ? g->bestPathFromFinalStateToIdx(e["idx"].n, ex, path)
                                    : g->bestPathFromFinalStateToIdxWeights(e["idx"].n, ex, fv(e["alt"]), path);
      e.set("sc", scr(s));
      J p = J::arr(); for (size_t i = path.size(); i-- > 0;) p.push(arcJ(path[i])); e.set("path", p);
    }
    else if (op == "nbest") {
      std::vector<std::pair<Score, std::string> > nb; std::vector<NbSearchHighLevelHyp> hl; std::vector<std::vector<Score> > cs;
      g->obtainNbestList(e["len"].n, nb, hl, cs);
      J l = J::arr();
      e.set("hl", hl.size() == nb.size()).set("ncs", cs.size());
      for (size_t i = 0; i < nb.size() && i < hl.size(); ++i) {
        J x = J::obj(); x.set("sc", scr(nb[i].first));
        std::istringstream is(nb[i].second); std::string w; J ws = J::arr(); while (is >> w) ws.push(w); x.set("w", ws);
        J p = J::arr(); for (auto& a : hl[i]) p.push(arcJ(a)); x.set("path", p);
        J c = J::arr(); if (i < cs.size()) for (double v : cs[i]) c.push(jint(v)); x.set("c", c);
        l.push(x);
      }
      e.set("res", l);
    }
    else if (op == "dump") {
      state(e);
      J pr = J::arr(), su = J::arr();
      for (unsigned s = 0; s < g->numStates(); ++s) {
        std::vector<WordGraphArcId> v; g->getArcIdsToPredStates(s, v); std::sort(v.begin(), v.end()); pr.push(J(v));
        g->getArcIdsToSuccStates(s, v); std::sort(v.begin(), v.end()); su.push(J(v));
      }
      if (g->numStates() == 0) { pr = J::arr(); su = J::arr(); }
      e.set("pr", pr).set("su", su).set("np", g->getNumberOfNonPrunedArcs()).set("na", g->getNumberOfPrunedAndNonPrunedArcs());
      e.set("den", jint(g->calculateDensity(1))).set("empty", g->empty());
      J fs = J::arr(); for (unsigned s = 0; s < g->numStates() + 2; ++s) fs.push(g->stateIsFinal(s)); e.set("isfin", fs);
      auto ar = g->getArcIndexRange(); auto sr = g->getHypStateIndexRange();
      e.set("rng", g->empty() || (ar.first == 0 && ar.second + 1 == g->numArcs() && sr.first == 0 && sr.second + 1 == g->numStates()));
    }
    else if (op == "scores") {
      std::set<WordGraphArcId> ex; std::vector<Score> p, r; std::vector<WordGraphArc> b;
      g->calcPrevScores(e["idx"].n, ex, p, b); g->calcRestScores(r);
      J pj = J::arr(), rj = J::arr(); for (double x : p) pj.push(scr(x)); for (double x : r) rj.push(scr(x));
      e.set("prev", pj).set("rest", rj);
    }
    else throw std::runtime_error("op " + op);
  }
};
int main(int argc, char** argv) { H h; h.dir = std::string(argv[1]) + "." + std::to_string(getpid()); int r = vh_main(h); unlink((h.dir + ".wg").c_str()); return r; }
