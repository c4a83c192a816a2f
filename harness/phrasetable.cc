// Drives a real phrase table (STL, HAT-trie, LevelDB, BDB, fast BDB) through its public interface.
#include "vh.h"
#include "PhraseDefs.h"
#include "PhrasePairInfo.h"
#include <cstdlib>
#include <map>
#include <memory>
#include <dirent.h>
#include <sys/stat.h>
#ifdef V_FBDB
#include "FastBdbPhraseTable.h"
#elif defined V_BDB
#include "BdbPhraseTable.h"
#else
#include "StlPhraseTable.h"
#include "HatTriePhraseTable.h"
#include "LevelDbPhraseTable.h"
#endif
using namespace std;
typedef vector<WordIndex> Phr;
typedef map<Phr, PhrasePairInfo> Node;
typedef NbestTableNode<PhraseTransTableNodeData> Nb;

// uniform interface
struct Tab {
  virtual ~Tab() {}
  virtual bool entry(const Phr&, const Phr&, int, int) { return false; }
  virtual void addsrc(const Phr&, int) {}
  virtual void addst(const Phr&, const Phr&, int) {}
  virtual void incr(const Phr&, const Phr&, int) = 0;
  virtual Count src(const Phr&, bool&) = 0;
  virtual Count trg(const Phr&) = 0;
  virtual Count st(const Phr&, const Phr&, bool&) = 0;
  virtual bool inf(const Phr&, const Phr&, PhrasePairInfo&, bool&) { return false; }
  virtual double pts(const Phr&, const Phr&) = 0;
  virtual double pst(const Phr&, const Phr&) = 0;
  virtual double lpts(const Phr&, const Phr&) = 0;
  virtual double lpst(const Phr&, const Phr&) = 0;
  virtual bool eft(const Phr&, Node&) = 0;
  virtual bool efs(const Phr&, Node&) { return false; }
  virtual bool nbt(const Phr&, Nb&, int) = 0;
  virtual bool nbs(const Phr&, Nb&) { return false; }
  virtual size_t size() { return 0; }
  virtual void clear() {}
  virtual bool reload() { return true; }
  virtual void fast() {}
  virtual vector<pair<pair<Phr, Phr>, double> > iter(string&) { return vector<pair<pair<Phr, Phr>, double> >(); }
};
static string dir;
static int serial = 0;
static string fresh() { char b[64]; snprintf(b, sizeof b, "/db%d_%d", (int)getpid(), serial++); return dir + b; }
static void wipe(const string& d)
{
  if (d.compare(0, dir.size(), dir) != 0 || dir.empty()) return;
  if (DIR* p = opendir(d.c_str())) { while (dirent* e = readdir(p)) { string n = e->d_name; if (n != "." && n != "..") unlink((d + "/" + n).c_str()); } closedir(p); rmdir(d.c_str()); }
}
#if !defined V_BDB && !defined V_FBDB
struct BaseTab : Tab {
  BasePhraseTable* b;
  bool entry(const Phr& s, const Phr& t, int c, int d) { PhrasePairInfo i; i.first = c; i.second = d; b->addTableEntry(s, t, i); return true; }
  void addsrc(const Phr& s, int c) { b->addSrcInfo(s, Count(c)); }
  void addst(const Phr& s, const Phr& t, int c) { b->addSrcTrgInfo(s, t, Count(c)); }
  void incr(const Phr& s, const Phr& t, int c) { b->incrCountsOfEntry(s, t, Count(c)); }
  Count src(const Phr& s, bool& f) { Count c = b->getSrcInfo(s, f); if ((float)c != (float)b->cSrc(s)) return Count(-77); return c; }
  Count trg(const Phr& t) { return b->cTrg(t); }
  Count st(const Phr& s, const Phr& t, bool& f) { Count c = b->getSrcTrgInfo(s, t, f); if ((float)c != (float)b->cSrcTrg(s, t)) return Count(-77); return c; }
  bool inf(const Phr& s, const Phr& t, PhrasePairInfo& i, bool& f) { i = b->infSrcTrg(s, t, f); return true; }
  double pts(const Phr& s, const Phr& t) { return (double)b->pTrgGivenSrc(s, t); }
  double pst(const Phr& s, const Phr& t) { return (double)b->pSrcGivenTrg(s, t); }
  double lpts(const Phr& s, const Phr& t) { return (double)b->logpTrgGivenSrc(s, t); }
  double lpst(const Phr& s, const Phr& t) { return (double)b->logpSrcGivenTrg(s, t); }
  bool eft(const Phr& t, Node& n) { return b->getEntriesForTarget(t, n); }
  bool efs(const Phr& s, Node& n) { return b->getEntriesForSource(s, n); }
  bool nbt(const Phr& t, Nb& n, int k) { return b->getNbestForTrg(t, n, k); }
  bool nbs(const Phr& s, Nb& n) { return b->getNbestForSrc(s, n); }
  size_t size() { return b->size(); }
  void clear() { b->clear(); }
};
struct StlTab : BaseTab {
  StlPhraseTable t; StlTab() { b = &t; }
  vector<pair<pair<Phr, Phr>, double> > iter(string&) { vector<pair<pair<Phr, Phr>, double> > r; for (StlPhraseTable::const_iterator i = t.begin(); i != t.end(); i++) r.push_back(make_pair((*i).first, (double)(*i).second)); return r; }
};
struct HatTab : BaseTab {
  HatTriePhraseTable t; HatTab() { b = &t; }
  vector<pair<pair<Phr, Phr>, double> > iter(string&) { vector<pair<pair<Phr, Phr>, double> > r; if (t.size() > 0) for (HatTriePhraseTable::const_iterator i = t.begin(); i != t.end(); i++) r.push_back(make_pair(make_pair(Phr(), (*i).first), (double)(*i).second)); return r; }
};
struct LdbTab : BaseTab {
  LevelDbPhraseTable* t; string path;
  LdbTab() { path = fresh(); t = new LevelDbPhraseTable; b = t; if (t->init(path) != THOT_OK) abort(); }
  ~LdbTab() { t->drop(); delete t; wipe(path); }
  bool reload() { delete t; t = new LevelDbPhraseTable; b = t; return t->load(path) == THOT_OK; }
  vector<pair<pair<Phr, Phr>, double> > iter(string&)
  {
    vector<pair<pair<Phr, Phr>, double> > r;
    for (LevelDbPhraseTable::const_iterator i = t->begin(); i != t->end(); i++) {
      pair<Phr, int> x = *i; Phr s, g; bool sep = false;
      for (WordIndex w : x.first) if (w == UNUSED_WORD) sep = true; else (sep ? s : g).push_back(w);
      r.push_back(make_pair(make_pair(s, g), (double)x.second));
    }
    return r;
  }
};
#else
#ifdef V_FBDB
typedef FastBdbPhraseTable BT;
#else
typedef BdbPhraseTable BT;
#endif
struct BdbTab : Tab {
  BT* b; string path;
  BdbTab() { path = fresh(); mkdir(path.c_str(), 0700); b = new BT; if (b->init((path + "/t").c_str()) != THOT_OK) abort(); }
  ~BdbTab() { delete b; wipe(path); }
  void incr(const Phr& s, const Phr& t, int c) { b->incrCountsOfEntry(s, t, Count(c)); }
  Count src(const Phr& s, bool& f) { return b->getSrcInfo(s, f); }
  Count trg(const Phr& t) { bool f; return b->getTrgInfo(t, f); }
  Count st(const Phr& s, const Phr& t, bool& f) { return b->getSrcTrgInfo(s, t, f); }
  double pts(const Phr& s, const Phr& t) { return (double)b->pTrgGivenSrc(s, t); }
  double pst(const Phr& s, const Phr& t) { return (double)b->pSrcGivenTrg(s, t); }
  double lpts(const Phr& s, const Phr& t) { return (double)b->logpTrgGivenSrc(s, t); }
  double lpst(const Phr& s, const Phr& t) { return (double)b->logpSrcGivenTrg(s, t); }
  bool eft(const Phr& t, Node& n) { return b->getEntriesForTarget(t, n); }
  bool nbt(const Phr& t, Nb& n, int k) { return b->getNbestForTrg(t, n, k); }
  bool reload() { delete b; b = new BT; return b->init((path + "/t").c_str()) == THOT_OK; }
#ifdef V_FBDB
  void fast() { b->enableFastSearch(); }
#endif
};
#endif

static J cnt(double x) { double r = floor(x + 0.5); return fabs(x - r) < 1e-2 ? J((long long)r) : J(-1999999999LL); }

struct H : VH {
  unique_ptr<Tab> t; vector<Phr> S, T; map<Phr, int> si, ti;
  void reset(const J&) { t.reset(); }
  int sid(const Phr& p) { if (p.empty()) return 0; auto i = si.find(p); return i == si.end() ? -9 : i->second; }
  int tid(const Phr& p) { if (p.empty()) return 0; auto i = ti.find(p); return i == ti.end() ? -9 : i->second; }
  void apply(J& e)
  {
    const string op = e["op"].s;
    if (op == "init") {
      const string impl = e["impl"].s; S.clear(); T.clear(); si.clear(); ti.clear();
      for (auto& x : e["src"].a) { S.push_back(x.uints()); si[S.back()] = S.size(); }
      for (auto& x : e["trg"].a) { T.push_back(x.uints()); ti[T.back()] = T.size(); }
#ifdef V_FBDB
      t.reset(new BdbTab);
#elif defined V_BDB
      t.reset(new BdbTab);
#else
      if (impl == "stl") t.reset(new StlTab); else if (impl == "hat") t.reset(new HatTab); else t.reset(new LdbTab);
#endif
      e.set("src", J(0)); e.set("trg", J(0));
      return;
    }
    Phr s, g;
    if (e.has("s")) s = S[e["s"].n - 1];
    if (e.has("t")) g = T[e["t"].n - 1];
    if (op == "incr") t->incr(s, g, e["c"].n);
    else if (op == "entry") t->entry(s, g, e["c"].n, e["d"].n);
    else if (op == "addsrc") t->addsrc(s, e["c"].n);
    else if (op == "addst") t->addst(s, g, e["c"].n);
    else if (op == "clear") t->clear();
    else if (op == "reload") e.set("ok", J(t->reload()));
    else if (op == "fast") t->fast();
    else if (op == "size") e.set("n", J(t->size()));
    else if (op == "q") {
      bool fs, fst, finf = false; double cs = t->src(s, fs), ct = t->trg(g), cst = t->st(s, g, fst);
      double pts = t->pts(s, g), pst = t->pst(s, g);
      e.set("cs", cnt(cs)); e.set("ct", cnt(ct)); e.set("cst", cnt(cst)); e.set("fs", J(fs)); e.set("fst", J(fst));
      e.set("pts", fabs(pts - PHRASE_PROB_SMOOTH) < 1e-12 ? J(-1) : cnt(pts * cs));
      e.set("pst", fabs(pst - PHRASE_PROB_SMOOTH) < 1e-12 ? J(-1) : cnt(pst * ct));
      e.set("lpok", J(fabs(t->lpts(s, g) - log(pts)) < 1e-4 && fabs(t->lpst(s, g) - log(pst)) < 1e-4));
      PhrasePairInfo i;
      if (t->inf(s, g, i, finf)) { e.set("inf1", cnt(i.first)); e.set("inf2", cnt(i.second)); e.set("finf", J(finf)); }
    } else if (op == "eft" || op == "efs") {
      Node n; J r = J::arr();
      bool ret = op == "eft" ? t->eft(g, n) : t->efs(s, n);
      for (auto& x : n) { J y = J::arr(); y.push(J(op == "eft" ? sid(x.first) : tid(x.first))); y.push(cnt(x.second.first)); y.push(cnt(x.second.second)); r.push(y); }
      e.set("ret", J(ret)); e.set("res", r);
    } else if (op == "nbt" || op == "nbs") {
      Nb n; J r = J::arr();
      bool ret = op == "nbt" ? t->nbt(g, n, e["n"].n) : t->nbs(s, n);
      bool f; double den = op == "nbt" ? (double)t->trg(g) : (double)t->src(s, f);
      if (ret) for (Nb::iterator i = n.begin(); i != n.end(); i++) { J y = J::arr(); y.push(J(op == "nbt" ? sid(i->second) : tid(i->second))); y.push(cnt(exp((double)i->first) * den)); r.push(y); }
      e.set("ret", J(ret)); e.set("res", r);
    } else if (op == "iter") {
      string k; J r = J::arr();
      for (auto& x : t->iter(k)) {
        if (fabs(x.second) < 1e-3) continue;
        int a = sid(x.first.first), b = tid(x.first.second); J y = J::arr();
        y.push(J(a && b ? "p" : a ? "s" : "t")); y.push(J(a)); y.push(J(b)); y.push(cnt(x.second)); r.push(y);
      }
      e.set("res", r);
    }
  }
  void done() { t.reset(); }
};
int main(int, char** argv) { dir = argv[1]; mkdir(dir.c_str(), 0700); H h; return vh_main(h); }
