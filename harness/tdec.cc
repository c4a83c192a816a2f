// Drives the real ThotDecoder with the real models (through plug-ins) from several threads under a controlled scheduler.
#include <bits/stdc++.h>
#include "vh.h"
#include "coop.h"
#include "ThotDecoder.h"
#include "tdmodels.h"
using namespace std;
static int races;
extern "C" NOTSAN void __tsan_on_report(void*) { ++races; if (sched::me >= 0) sched::ev_simple("race"); }
struct H;
struct Job { H* h; int t; const J* reqs; };
static void* worker(void* p);
struct H : VH
{
  string base, dir; ThotDecoder* td = 0; ThotDecoderUserPars tdup; bool stuck = false;
  void models() { base = "./tdec_base_" + to_string(getpid()); make_models(base); }
  void reset(const J&)
  {
    if (base.empty()) models();
    drop();
  }
  void drop()
  {
    if (td && !stuck) delete td;   // a decoder whose threads are blocked is left alone
    td = 0; stuck = false;
  }
  int load()
  {
    td = new ThotDecoder;
    tdup = ThotDecoderUserPars();
    return td->initUsingCfgFile(dir + "/cfg", tdup, 0);
  }
  string req(const J& q)
  {
    J ev = J::obj();
    string op = q["op"].s, r, hyp; int u = q["u"].n; RejectedWordsSet none;
    string s = q.has("x") ? q["x"].s : "", t = q.has("y") ? q["y"].s : "";
    if (op == "tr") { td->translateSentence(u, s.c_str(), r, hyp, 0); ev.set("r", r); }
    else if (op == "cov") { td->sentPairVerCov(u, s.c_str(), t.c_str(), r, 0); ev.set("r", r); }
    else if (op == "cat") { td->startCat(u, s.c_str(), r, 0); ev.set("r", r); }
    else if (op == "add") { td->addStrToPref(u, s.c_str(), none, r, 0); ev.set("r", r); }
    else if (op == "pref") { td->setPref(u, s.c_str(), none, r, 0); ev.set("r", r); }
    else if (op == "reset") td->resetPrefix(u, 0);
    else if (op == "train") ev.set("n", (long)td->onlineTrainSentPair(u, s.c_str(), t.c_str(), 0));
    else if (op == "ecm") ev.set("n", (long)td->trainEcm(u, s.c_str(), t.c_str(), 0));
    else if (op == "init") { ThotDecoderUserPars p = tdup; if (q.has("sp")) { p.sp = q["sp"].n; p.uc_str = "nofile"; } ev.set("n", (long)td->initUserPars(u, p, 0)); }
    else if (op == "rel") td->release_user_data(u);
    else if (op == "new") ev.set("n", (long)td->user_id_new(u));
    else if (op == "print") ev.set("n", (long)td->printModels(0));
    else if (op == "weights") ev.set("n", (long)td->printModelWeights());
    else abort();
    return ev.str();
  }
  static string fields(const string& js) { return js.size() > 2 ? "," + js.substr(1, js.size() - 2) : ""; }
  void thread(int t, const J& reqs)
  {
    for (size_t i = 0; i < reqs.a.size(); ++i) {
      string c = "{\"e\":\"call\",\"t\":" + to_string(t) + fields(reqs.a[i].str()) + "}";
      sched::ev(c.c_str());
      string r = "{\"e\":\"ret\",\"t\":" + to_string(t) + fields(req(reqs.a[i])) + "}";
      sched::ev(r.c_str());
      sched::yield();
    }
  }
  void apply(J& e)
  {
    string op = e["op"].s;
    if (op == "setup") {
      dir = base + "_run";
      sh("rm -rf " + dir + " && cp -r " + base + " " + dir);
      make_cfg(dir);
      setenv("VP_ECM", e.has("nowg") ? "nowg" : "", 1);
      e.set("n", (long)load());
    }
    else if (op == "reload") { drop(); e.set("n", (long)load()); }
    else if (op == "run") {
      if (stuck || !td) { e.set("ev", J::arr()); e.set("skipped", true); return; }
      const J& ths = e["threads"];
      vector<int> plan; if (e.has("plan")) for (auto& x : e["plan"].a) plan.push_back(x.n);
      int n = ths.a.size();
      sched::begin(n, e["seed"].n, e.has("stick") ? (int)e["stick"].n : 0, plan.data(), plan.size());
      vector<pthread_t> th(n); vector<Job> jobs(n);
      for (int i = 0; i < n; ++i) { jobs[i].h = this; jobs[i].t = i; jobs[i].reqs = &ths.a[i]; pthread_create(&th[i], 0, worker, &jobs[i]); }
      if (sched::go()) for (auto& x : th) pthread_join(x, 0); else stuck = true;
      sched::buf[sched::nbuf] = 0;
      e.set("ev", J::parse("[" + string(sched::buf) + "]"));
      if (stuck) { new vector<Job>(move(jobs)); new vector<int>(move(plan)); }
    }
    else abort();
  }
};
static void* worker(void* p) { Job* j = (Job*)p; sched::enter(j->t); j->h->thread(j->t, *j->reqs); sched::leave(); return 0; }
int main() { H h; int r = vh_main(h); sh("rm -rf " + h.base + " " + h.base + "_run"); fflush(0); syscall(SYS_exit_group, r); }
