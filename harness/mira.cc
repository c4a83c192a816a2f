// Harness for the scorers, the weight updater and the programs built on them.
// Arguments: thot_scorer, thot_calc_bleu, thot_ll_weight_upd_nblist, directory with the plug-ins.
#include "vh.h"
#include "MiraBleu.h"
#include "MiraWer.h"
#include "MiraGtm.h"
#include "MiraChrF.h"
#include "KbMiraLlWu.h"
#include <memory>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
using namespace std;
typedef vector<string> VS;
static string dir, plug; static char** gv;
static string word(const J& w) { string r; for (auto& x : w.a) r += (char)x.n; return r; }
static string text(const J& s, long sp)
{
  string r; if (sp == 2) r = "  ";
  for (size_t i = 0; i < s.a.size(); ++i) { if (i) r += sp ? (i % 2 ? "  " : " ") : " "; r += word(s.a[i]); }
  if (sp) r += " ";
  return r;
}
static VS texts(const J& s, long sp) { VS r; for (auto& x : s.a) r.push_back(text(x, sp)); return r; }
static J num(const string& s, double v, bool lg)
{
  J o = J::obj(); o.set("bad", !(v == v) || v > 1e6 || v < -1e6 || (s != "wer" && v < 0));
  if (o["bad"].b) { o.set("z", true); o.set("v", 0); return o; }
  if (lg) { o.set("z", v < 1e-60); o.set("v", v < 1e-60 ? 0 : (long)llround(1e5 * log(v))); }
  else { o.set("z", false); o.set("v", (long)llround(1e5 * v)); }
  return o;
}
// Scorer with given qualities, which depend on the background corpus
struct Mock : BaseMiraScorer
{
  struct Q { long q0, q1, s; }; map<pair<string, string>, pair<Q, unsigned>> q;
  unsigned bg = 1; long resets = 0, ups = 0; double g; bool decays = true, cands = true;
  const Q& at(const string& c, const string& r, unsigned* id = 0)
  {
    static Q none = {-1000, -1000, -1000}, empty = {0, 0, 0};
    auto i = q.find({c, r}); if (i != q.end()) { if (id) *id = i->second.second; return i->second.first; }
    if (!c.empty()) { cands = false; return none; } return empty;
  }
  void resetBackgroundCorpus() { bg = 0; ++resets; }
  void updateBackgroundCorpus(const vector<unsigned>& st, double d) { if (d != g) decays = false; if (st.size() != 1) { cands = false; return; } bg = (bg + st[0]) % 2; ++ups; }
  void sentBackgroundScore(const string& c, const string& r, double& s, vector<unsigned>& st) { unsigned id = 0; const Q& x = at(c, r, &id); s = bg ? x.q1 : x.q0; st.assign(1, id); }
  void sentScore(const string& c, const string& r, double& s) { s = at(c, r).s; }
  void corpusScore(const VS& c, const VS& r, double& s) { s = 0; if (c.size() != r.size()) cands = false; for (size_t i = 0; i < c.size() && i < r.size(); ++i) s += at(c[i], r[i]).s; }
};
static string run(const string& cmd, int& rc)
{
  string o; FILE* p = popen(cmd.c_str(), "r"); int c; while ((c = fgetc(p)) != EOF) o += (char)c;
  int s = pclose(p); rc = WIFEXITED(s) ? WEXITSTATUS(s) : 128; return o;
}
static void lines(const string& f, const VS& v) { ofstream o(f.c_str()); for (auto& x : v) o << x << "\n"; }
static bool after(const string& o, const string& k, double& v)
{
  size_t p = o.find(k); if (p == string::npos) return false;
  const char* b = o.c_str() + p + k.size(); char* e; v = strtod(b, &e); return e != b;
}
struct H : VH
{
  map<string, unique_ptr<BaseMiraScorer>> sc; map<string, vector<unsigned>> last;
  void reset(const J&)
  {
    sc["bleu"].reset(new MiraBleu); sc["wer"].reset(new MiraWer); sc["gtm"].reset(new MiraGtm); sc["chrf"].reset(new MiraChrF); last.clear();
    int r = system(("rm -rf '" + dir + "'/*").c_str()); (void)r;
  }
  void ini(const string& scorer, const string& upd)
  {
    ofstream o((dir + "/master.ini").c_str());
    for (const char* k : {"BaseWordPenaltyModel", "BaseNgramLM", "BaseSwAligModel", "BasePhraseModel", "BaseTranslationMetadata", "BaseStackDecoder"})
      o << k << " ; " << plug << "/mira_wer.so ;\n";
    o << "BaseScorer ; " << plug << "/mira_" << scorer << ".so ;\nBaseLogLinWeightUpdater ; " << plug << "/" << upd << ".so ;\n";
  }
  void apply(J& e)
  {
    string op = e["op"].s, s = e.has("s") ? e["s"].s : "";
    double v = -7777777;
    if (op == "sent") { sc[s]->sentScore(text(e["c"], e["sp"].n), text(e["r"], e["sp"].n), v); e.set("out", num(s, v, s == "bleu")); }
    else if (op == "corpus") { sc[s]->corpusScore(texts(e["cs"], e["sp"].n), texts(e["rs"], e["sp"].n), v); e.set("out", num(s, v, s == "bleu")); }
    else if (op == "bg") {
      vector<unsigned> st(3, 77); sc[s]->sentBackgroundScore(text(e["c"], e["sp"].n), text(e["r"], e["sp"].n), v, st);
      e.set("out", num(s, v, s == "bleu")); if (s == "bleu") e.set("st", J(st)); last[s] = st;
    }
    else if (op == "reset") sc[s]->resetBackgroundCorpus();
    else if (op == "upd") { if (s != "bleu" || last[s].size() == 10) sc[s]->updateBackgroundCorpus(last[s], e["d"].n / 4.0); }
    else if (op == "file") {
      lines(dir + "/r", texts(e["rs"], e["sp"].n)); lines(dir + "/c", texts(e["cs"], e["sp"].n));
      int rc; J vs = J::arr(); bool ok = true; string o, p = e["prog"].s, a = "' -r r -t c";
      if (p == "scorer") {
        ini(s, "rec_updater"); o = run("cd '" + dir + "' && '" + string(gv[1]) + a, rc);
        ok = after(o, "Score= ", v); vs.push(num(s, v, s == "bleu"));
      } else {
        o = run("cd '" + dir + "' && '" + string(gv[2]) + a + (p == "bleusm" ? " -sm" : ""), rc);
        if (p == "bleusm") { ok = after(o, "Smoothed BLEU= ", v); vs.push(num("bleu", v, false)); }
        else {
          ok = after(o, "BLEU= ", v); vs.push(num("bleu", v, true)); double b = -1; ok = after(o, "BP= ", b) && ok; vs.push(num("bleu", b, true));
          size_t q = o.rfind(" , "); istringstream is(q == string::npos ? string() : o.substr(q + 3)); string t;
          for (int n = 0; n < 4; ++n) { double x = -1; if (n && !(is >> t && t == "/")) ok = false; if (!(is >> x)) ok = false; vs.push(num("bleu", x, false)); }
        }
      }
      e.set("ok", rc == 0 && ok); if (rc == 0 && ok) e.set("out", vs); else e.set("rc", rc);
    }
    else if (op == "mira") {
      Mock m; m.g = e["g"].n / 4.0; bool closed = e["closed"].b; VS refs; vector<VS> nb; vector<vector<vector<double>>> f; vector<double> w, nw(1, 5.0);
      for (size_t i = 0; i < e["sents"].a.size(); ++i) {
        const J& x = e["sents"].a[i]; refs.push_back("ref" + to_string(i)); nb.push_back(VS()); f.push_back(vector<vector<double>>());
        for (size_t k = 0; k < x.a.size(); ++k) {
          string c = "cand" + to_string(k); nb.back().push_back(c); vector<double> y; for (auto& z : x.a[k]["f"].a) y.push_back(z.n); f.back().push_back(y);
          m.q[{c, refs.back()}] = {Mock::Q{x.a[k]["q0"].n, x.a[k]["q1"].n, x.a[k]["s"].n}, (unsigned)k + 1};
        }
      }
      for (auto& z : e["w0"].a) w.push_back(z.n / 4.0);
      KbMiraLlWu u(1.0 / (1 << e["c"].n), m.g, e["J"].n, e["E"].n, e["R"].n);
      bool l = u.link_scorer(&m);
      if (closed) u.updateClosedCorpus(refs, nb, f, w, nw); else u.update(refs[0], nb[0], f[0], w, nw);
      J o = J::arr(), b = J::arr(); bool bad = false;
      for (double x : nw) { if (!(x == x) || x > 4000 || x < -4000) { bad = true; x = 0; } o.push((long)llround(x * 262144)); }
      e.set("w", o); e.set("bad", bad || !l || !m.decays || !m.cands); e.set("resets", m.resets);
    }
    else if (op == "llwu") {
      ini("wer", "rec_updater"); VS nbf, refs; const J& ss = e["sents"];
      for (size_t i = 0; i < ss.a.size(); ++i) {
        string f = dir + "/nb" + to_string(i); VS ls(1, "# 0 0"); long k = 0;
        for (auto& x : ss.a[i]["n"].a) {
          string t = "-" + to_string(++k) + ".5 |||"; for (auto& z : x["f"].a) t += " " + to_string(z.n); ls.push_back(t + " ||| " + text(x["t"], 0));
        }
        lines(f, ls); nbf.push_back(f); refs.push_back(text(ss.a[i]["ref"], 0));
      }
      lines(dir + "/nbs", nbf); lines(dir + "/refs", refs);
      ostringstream c; c << "cd '" << dir << "' && '" << gv[3] << "' -w"; for (auto& x : e["w0"].a) c << " " << x.n / 4.0;
      if (!e["va"].a.empty()) { c << " -va"; for (auto& x : e["va"].a) c << " " << x.n; }
      c << " -nb nbs -r refs"; int rc; string o = run(c.str(), rc);
      e.set("rc", rc); J got = J::arr(), w = J::arr(); bool found = false; istringstream is(o); string line, t;
      while (getline(is, line)) {   // the recording updater prints what it is given as JSON
        if (line.compare(0, 4, "REC ") == 0) got.push(J::parse(line.substr(4)));
        else if (line.compare(0, 16, "Updated weights:") == 0) { found = true; istringstream l2(line.substr(16)); double x; while (l2 >> x) w.push((long)llround(x * 1000)); }
      }
      e.set("got", got); e.set("w", w); e.set("found", found);
    }
  }
};
int main(int, char** argv)
{
  gv = argv; plug = argv[4];
  char t[] = "./mirXXXXXX"; char b[4096]; dir = mkdtemp(t); dir = realpath(dir.c_str(), b);
  H h; int r = vh_main(h); int s = system(("rm -rf '" + dir + "'").c_str()); (void)s; return r;
}
