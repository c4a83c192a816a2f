// Plug-in: a weight updater which prints what it is given (REC lines) and adds k+1 to the k-th weight.
#include "BaseLogLinWeightUpdater.h"
#include "vjson.h"
#include <iostream>
struct Rec : BaseLogLinWeightUpdater
{
  static J w(const std::string& s) { J r = J::arr(), x = J::arr(); for (char c : s + " ") if (c == ' ') { if (!x.a.empty()) r.push(x); x = J::arr(); } else x.push((int)c); return r; }
  static J v(const std::vector<double>& d, double k) { J r = J::arr(); for (double x : d) r.push((long)llround(x * k)); return r; }
  bool link_scorer(BaseScorer* s) { return s != 0; }
  void update(const std::string&, const std::vector<std::string>&, const std::vector<std::vector<double> >&, const std::vector<double>&, std::vector<double>&) {}
  void updateClosedCorpus(const std::vector<std::string>& refs, const std::vector<std::vector<std::string> >& nb,
                          const std::vector<std::vector<std::vector<double> > >& f, const std::vector<double>& cw, std::vector<double>& nw)
  {
    J o = J::obj(), r = J::arr(), n = J::arr(), x = J::arr();
    for (auto& s : refs) r.push(w(s));
    for (auto& l : nb) { J y = J::arr(); for (auto& s : l) y.push(w(s)); n.push(y); }
    for (auto& l : f) { J y = J::arr(); for (auto& d : l) y.push(v(d, 1)); x.push(y); }
    o.set("refs", r); o.set("nb", n); o.set("f", x); o.set("w", v(cw, 4));
    std::cout << "REC " << o.str() << std::endl;
    nw = cw; for (size_t k = 0; k < nw.size(); ++k) nw[k] += k + 1;
  }
};
extern "C" BaseLogLinWeightUpdater* create(const char*) { return new Rec; }
extern "C" const char* type_id(void) { return "Rec"; }
