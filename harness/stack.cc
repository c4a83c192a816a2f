// Drives SmtMultiStackRec + HypStateDict (the real templates) with a minimal hypothesis type.
#include "vh.h"
#include "Bitset.h"
#include "SmtDefs.h"
#include "SmtMultiStackRec.h"
struct EqF { typedef unsigned int EqClassType; struct EqClassTypeHashF { size_t operator()(unsigned x) const { return x; } }; };
struct Hyp
{
  typedef EqF EqClassFunc; typedef unsigned EqClassType; typedef int HypState;
  Score sc; int st, cls, id;
  Hyp() : sc(0), st(0), cls(0), id(0) {}
  Score getScore() const { return sc; }
  EqF::EqClassType getEqClass() const { return cls; }
  HypState getHypState() const { return st; }
  Bitset<MAX_SENTENCE_LENGTH_ALLOWED> getKey() const { return Bitset<MAX_SENTENCE_LENGTH_ALLOWED>(); }
};
struct H : VH
{
  SmtMultiStackRec<Hyp>* s; HypStateDict<Hyp>* d;
  H() : s(0), d(0) {}
  ~H() { delete s; delete d; }
  void reset(const J&) { delete s; delete d; s = new SmtMultiStackRec<Hyp>; d = new HypStateDict<Hyp>; s->setHypStateDictPtr(d); }
  static J hj(const Hyp& h) { J j = J::obj(); j.set("id", h.id).set("st", h.st).set("cls", h.cls).set("sc", jint(h.sc)); return j; }
  void state(J& e)
  {
    J c = J::arr();
    for (SmtMultiStackRec<Hyp>::iterator it = s->begin(); it != s->end(); ++it)
      for (SmtStack<Hyp>::iterator k = it->second.begin(); k != it->second.end(); ++k) c.push(hj(*k));
    e.set("stk", c).set("size", s->size()).set("empty", s->empty());
    J dj = J::arr();
    for (HypStateDict<Hyp>::iterator it = d->begin(); it != d->end(); ++it) { J x = J::arr(); x.push(it->first).push(it->second.hypStateIndex).push(jint(it->second.score)); dj.push(x); }
    e.set("dict", dj).set("dsize", d->size());
  }
  void apply(J& e)
  {
    std::string op = e["op"].s;
    if (op == "push") { Hyp h; h.sc = e["h"]["sc"].n; h.st = e["h"]["st"].n; h.cls = e["h"]["cls"].n; h.id = e["h"]["id"].n; e.set("ret", s->push(h)); }
    else if (op == "pop" || op == "top" || op == "last") {
      if (s->empty()) e.set("res", J::arr());
      else { J r = J::arr(); r.push(hj(op == "pop" ? s->pop() : op == "top" ? s->top() : s->last())); e.set("res", r); }
    }
    else if (op == "rmlast") { if (!s->empty()) s->removeLast(); }
    else if (op == "max") s->setMaxStackSize(e["n"].n);
    else if (op == "bf") s->set_bf(e["b"].b);
    else if (op == "clear") s->clear();
    else if (op == "clearall") { s->clear(); d->clear(); }
    else throw std::runtime_error("op " + op);
    state(e);
  }
};
int main() { H h; return vh_main(h); }
