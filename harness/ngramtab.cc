// Drives the tables of n-gram counts, in memory and in a LevelDB data base.
#include <bits/stdc++.h>
#include "vh.h"
#include "StatModelDefs.h"
#include "vecx_x_incr_cptable.h"
#include "LevelDbNgramTable.h"
typedef std::vector<WordIndex> V;
typedef BaseIncrCondProbTable<V, WordIndex, Count, Count> Tab;
struct H : VH
{
  std::unique_ptr<Tab> m; std::string dir, kind;
  void reset(const J&) { m.reset(); int r = system(("rm -rf '" + dir + "'/*").c_str()); (void)r; }
  void done() { reset(J()); }
  static long long q(double x) { return std::isnan(x) || fabs(x) > 5e8 ? -1 : llround(x * 4); }
  static long long mil(double x) { return std::isnan(x) ? -1 : x > 200 ? 200000000 : x < -200 ? -200000000 : llround(x * 1e6); }
  static V vec(const J& a) { V r; for (auto& x : a.a) r.push_back((WordIndex)x.n); return r; }
  static J seq(const V& v) { J r = J::arr(); for (auto x : v) r.push((long long)x); return r; }
  static V cat(V v, WordIndex t) { v.push_back(t); return v; }
  void open(bool init) {
    m.reset();
    if (kind == "vec") { m.reset(new vecx_x_incr_cptable<WordIndex, Count, Count>); return; }
    LevelDbNgramTable* t = new LevelDbNgramTable; m.reset(t); std::string f = dir + "/db";
    if (init) t->init(f); else t->load(f.c_str());
  }
  void apply(J& e)
  {
    std::string op = e["op"].s; V s = e.has("s") ? vec(e["s"]) : V(); WordIndex t = e.has("t") ? (WordIndex)e["t"].n : 0;
    Count cs(e.has("cs") ? e["cs"].n / 4.0 : 0.0), c(e.has("c") ? e["c"].n / 4.0 : 0.0); bool f = false;
    if (op == "new") { kind = e["kind"].s; open(true); }
    else if (op == "clear") m->clear();
    else if (op == "reload") { if (kind == "ldb") open(false); }
    else if (op == "add") { im_pair<Count, Count> i; i.first = cs; i.second = c; m->addTableEntry(s, t, i); }
    else if (op == "addst") m->addSrcTrgInfo(s, t, c);
    else if (op == "addsrc") m->addSrcInfo(s, cs);
    else if (op == "incr") m->incrCountsOfEntry(s, t, c);
    else if (op == "look") {
      e.set("cs", q((float)m->cSrc(s))).set("cst", q((float)m->cSrcTrg(s, t))).set("lcs", q(exp((double)(float)m->lcSrc(s)))).set("lcst", q(exp((double)(float)m->lcSrcTrg(s, t))));
      m->getSrcInfo(s, f); e.set("fs", f ? 1 : 0); m->getSrcTrgInfo(s, t, f); e.set("fst", f ? 1 : 0);
      e.set("p", mil((double)m->pTrgGivenSrc(s, t))).set("lp", mil(exp((double)m->logpTrgGivenSrc(s, t))));
    }
    else if (op == "rev") {
      e.set("ct", q((float)m->cTrg(t))).set("lct", q(exp((double)(float)m->lcTrg(t)))).set("p", mil((double)m->pSrcGivenTrg(s, t))).set("lp", mil(exp((double)m->logpSrcGivenTrg(s, t))));
    }
    else if (op == "ent") {
      J es = J::arr(), nb = J::arr(); bool r, nr;
      if (e["of"].s == "s") {
        Tab::TrgTableNode tn; r = m->getEntriesForSource(s, tn);
        for (auto& x : tn) es.push(J::arr().push(seq(cat(s, x.first))).push(q((float)x.second.first)).push(q((float)x.second.second)));
        NbestTableNode<WordIndex> n; nr = m->getNbestForSrc(s, n);
        for (auto i = n.begin(); i != n.end(); ++i) nb.push(J::arr().push(seq(cat(s, i->second))).push(mil(exp((double)i->first))));
      } else {
        Tab::SrcTableNode sn; r = m->getEntriesForTarget(t, sn);
        for (auto& x : sn) es.push(J::arr().push(seq(cat(x.first, t))).push(q((float)x.second.first)).push(q((float)x.second.second)));
        NbestTableNode<V> n; nr = m->getNbestForTrg(t, n, (int)e["n"].n);
        for (auto i = n.begin(); i != n.end(); ++i) nb.push(J::arr().push(seq(cat(i->second, t))).push(mil(exp((double)i->first))));
      }
      e.set("es", es).set("nb", nb).set("ret", r ? 1 : 0).set("nret", nr ? 1 : 0);
    }
    else if (op == "all") {
      J es = J::arr();
      auto put = [&](const V& g, Count x) { if ((float)x != 0) es.push(J::arr().push(seq(g)).push(q((float)x))); };
      if (kind == "vec") { auto* p = (vecx_x_incr_cptable<WordIndex, Count, Count>*)m.get(); for (auto i = p->begin(); i != p->end(); ++i) put((*i).first, (*i).second); }
      else { auto* p = (LevelDbNgramTable*)m.get(); for (auto i = p->begin(); i != p->end(); ++i) put((*i).first, (*i).second); }
      e.set("es", es);
    }
  }
};
int main()
{
  char t[] = "./ntXXXXXX"; char* p = mkdtemp(t); H h; char* rp = realpath(p, NULL); h.dir = rp;
  int r = vh_main(h); h.m.reset(); int s = system(("rm -rf '" + h.dir + "'").c_str()); (void)s; return r;
}
