// Drives step_by_step_simplex, and the program (argv[1]) and script (argv[2]) that use it.
#include "vh.h"
#include <bits/stdc++.h>
#include <sys/wait.h>
#include "step_by_step_dhs.h"
static std::string prog, script, dir;
static J pt(const std::vector<double>& x) { J r = J::arr(); for (double v : x) r.push((long long)llround(v * 1e5)); return r; }
static std::string bits(const std::vector<double>& x) { std::string r; char b[40]; for (double v : x) { snprintf(b, sizeof b, "%a ", v); r += b; } return r; }
static std::string run(const std::string& cmd, int& rc) { std::string o; FILE* p = popen(cmd.c_str(), "r"); int c; while ((c = fgetc(p)) != EOF) o += (char)c; int s = pclose(p); rc = WIFEXITED(s) ? WEXITSTATUS(s) : -1; return o; }
static J nums(const std::string& s) { J r = J::arr(); std::istringstream i(s); double d; while (i >> d) r.push((long long)llround(d * 1e5)); return r; }
struct H : VH
{
  J su; int tick;
  H() : tick(0) {}
  std::vector<double> x0() { std::vector<double> r; for (auto& v : su["x0"].a) r.push_back(v.n / 1e5); return r; }
  double ftol() { return sqrt((double)su["p"].n / su["q"].n); }
  std::string values(int k, bool loose)
  {
    std::ostringstream o;
    for (int i = 0; i < k; ++i) { if (loose && (i + k) % 3 == 0) o << "\n"; o << su["vals"].a[i].n; if (loose && i % 4 == 1) o << ".000"; else if (loose && i % 4 == 2) o << " x"; o << "\n"; }
    return o.str();
  }
  std::string vars()
  {
    std::string v = " -va"; char b[40];
    for (auto& a : su["va"].a) { if (a.n == su["free"].n) v += " -0"; else { snprintf(b, sizeof b, " %g", a.n / 1e5); v += b; } }
    if (su["iv"].b) { v += " -iv"; size_t k = 0; for (auto& a : su["va"].a) { snprintf(b, sizeof b, " %g", a.n == su["free"].n ? su["x0"].a[k++].n / 1e5 : 7.0); v += b; } }
    snprintf(b, sizeof b, " -ftol %.17g", ftol());
    return v + b;
  }
  void reset(const J&) { su = J(); }
  void done() { int rc; run("rm -rf '" + dir + "'/* 2>/dev/null", rc); }
  void apply(J& e)
  {
    std::string op = e["op"].s;
    if (op == "setup") { su = e; return; }
    if (op == "call") {
      int n = su["n"].n; std::vector<double> st = x0(), x(n, 0.0); double y = -1, tol; int nf = -1;
      FILE* f = tmpfile(); std::string v = values(e["k"].n, su.has("loose")); fputs(v.c_str(), f); rewind(f);
      int r = step_by_step_simplex(&st[0], n, ftol(), su["scale"].n, NULL, f, &nf, &y, &x[0], &tol, 0);
      fclose(f);
      e.set("ret", r == DSO_EVAL_FUNC ? "eval" : r == DSO_NMAX_ERROR ? "max" : r == THOT_OK ? "ok" : "?");
      e.set("x", pt(x)).set("b", bits(x)).set("nf", nf).set("y", (long long)y).set("sol", pt(st)).set("solb", r == DSO_EVAL_FUNC ? "" : bits(st));
    }
    else if (op == "prog") {
      std::string f = dir + "/img" + std::to_string(tick++); { std::ofstream o(f); o << values(e["k"].n, su.has("loose")); }
      int rc; std::string o = run("'" + prog + "'" + vars() + " -i '" + f + "' 2>/dev/null", rc);
      e.set("ret", rc == DSO_EVAL_FUNC ? "eval" : rc == 0 ? "ok" : "?").set("out", nums(o));
    }
    else if (op == "script") {
      // The target function answers with the values one by one and notes what it was asked; it fails when told to.
      std::string d = dir + "/s" + std::to_string(tick++), q = "'" + d + "'"; int rc;
      run("mkdir -p " + q + "/bin " + q + "/t; ln -s '" + prog + "' " + q + "/bin/thot_dhs_step_by_step_min", rc);
      { std::ofstream o(d + "/vals"); o << values(su["vals"].a.size(), false); }
      { std::ofstream o(d + "/f"); o << "#!/bin/bash\nshift\nn=$(( $(cat " << q << "/n) + 1 ))\n[ -e " << q << "/fail ] && [ $n = \"$(cat " << q << "/fail)\" ] && exit 1\necho $n > " << q << "/n\necho \"$@\" >> " << q << "/asked\n[ $n -gt " << su["vals"].a.size() << " ] && exit 1\nsed -n \"${n}p\" " << q << "/vals\n"; }
      { std::ofstream o(d + "/n"); o << "0\n"; }
      run("chmod +x " + q + "/f; touch " + q + "/asked", rc);
      std::string img;
      std::vector<int> fails = e["fail"].ints(); fails.push_back(0);
      for (size_t k = 0; k < fails.size(); ++k) {
        { std::ofstream o(d + "/fail"); o << fails[k] << "\n"; }
        std::string t = d + "/t" + std::to_string(k);
        run("mkdir '" + t + "'; cd " + q + " && AWK=awk bindir='" + d + "/bin' timeout 100 bash '" + script + "'" + vars() + " -u '" + d + "/f' -o '" + d + "/out' -tdir '" + t + "'" + (img.empty() ? "" : " -r '" + img + "'") + " >/dev/null 2>&1", rc);
        if (rc == 0 && fails[k] == 0) break;
        int r2; std::string s = run("ls -d '" + t + "'/thot_dhs_min_*/adj.img", r2);
        while (!s.empty() && s.back() == '\n') s.pop_back();
        img = s;
      }
      J a = J::arr(); std::ifstream in(d + "/asked"); std::string line;
      while (std::getline(in, line)) a.push(nums(line));
      std::ifstream out(d + "/out.out"); std::getline(out, line);
      e.set("asked", a).set("out", nums(line));
      run("rm -rf " + q, rc);
    }
    else throw std::runtime_error("unknown op " + op);
  }
};
int main(int argc, char** argv)
{
  if (argc > 1) prog = argv[1]; if (argc > 2) script = argv[2];
  char t[] = "./smpXXXXXX"; char b[4096]; dir = mkdtemp(t); dir = realpath(dir.c_str(), b);
  H h; int r = vh_main(h); rmdir(dir.c_str()); return r;
}
