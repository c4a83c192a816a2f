// Drives the vocabularies of SingleWordVocab, phrase models, alignment models and language models, and the encoders.
#include "vh.h"
#include <bits/stdc++.h>
#include "SingleWordVocab.h"
#include "WbaIncrPhraseModel.h"
#include "IncrIbm1AligModel.h"
#include "IncrJelMerNgramLM.h"
#include "lm_ienc.h"
#include "vecx_x_incr_enc.h"

struct V
{
  virtual J add(const std::vector<std::string>&) = 0;
  virtual void codes(J& e, const std::vector<std::string>&) = 0;
  virtual void names(J& e, const std::vector<WordIndex>&) = 0;
  virtual int size() = 0;
  virtual bool all(J&) { return false; }
  virtual bool load(const char*) = 0;
  virtual bool print(const char*) = 0;
  virtual void clear() = 0;
  virtual bool giza() { return true; }
  virtual ~V() {}
};
struct Own : SingleWordVocab { };
template<class T> bool ld(T* m, const char* f, bool s) { return s ? m->loadSrcVocab(f) : m->loadTrgVocab(f); }
template<class T> bool pr(T* m, const char* f, bool s) { return s ? m->printSrcVocab(f) : m->printTrgVocab(f); }
inline bool ld(IncrIbm1AligModel* m, const char* f, bool s) { return s ? m->loadGIZASrcVocab(f) : m->loadGIZATrgVocab(f); }
inline bool pr(IncrIbm1AligModel* m, const char* f, bool s) { return s ? m->printGIZASrcVocab(f) : m->printGIZATrgVocab(f); }
template<class T> std::vector<WordIndex> vec(T* m, const std::vector<std::string>& w, bool s) { return s ? m->strVectorToSrcIndexVector(w) : m->strVectorToTrgIndexVector(w); }
inline bool vocab(SingleWordVocab* m, bool s, J& r) { SingleWordVocab::StrToIdxVocab v = s ? m->getSrcVocab() : m->getTrgVocab(); for (auto& p : v) r.push(J::obj().set("w", p.first).set("i", (unsigned)p.second)); return true; }
template<class T> bool vocab(T*, bool, J&) { return false; }
template<class T> struct SW : V
{
  std::shared_ptr<T> m; bool s;
  SW(std::shared_ptr<T> p, bool src) : m(p), s(src) {}
  J add(const std::vector<std::string>& w)
  {
    J r = J::arr();
    if (w.size() == 1) r.push((unsigned)(s ? m->addSrcSymbol(w[0]) : m->addTrgSymbol(w[0])));
    else for (WordIndex i : vec(m.get(), w, s)) r.push((unsigned)i);
    return r;
  }
  void codes(J& e, const std::vector<std::string>& w)
  {
    J r = J::arr(); bool f = true;
    for (auto& x : w) { r.push((unsigned)(s ? m->stringToSrcWordIndex(x) : m->stringToTrgWordIndex(x))); f = (s ? m->existSrcSymbol(x) : m->existTrgSymbol(x)) && f; }
    e.set("out", r); e.set("found", f);
  }
  void names(J& e, const std::vector<WordIndex>& v) { J r = J::arr(); for (WordIndex i : v) r.push(s ? m->wordIndexToSrcString(i) : m->wordIndexToTrgString(i)); e.set("out", r); }
  int size() { return s ? m->getSrcVocabSize() : m->getTrgVocabSize(); }
  bool all(J& r) { return vocab(m.get(), s, r); }
  bool load(const char* f) { return ld(m.get(), f, s); }
  bool print(const char* f) { return pr(m.get(), f, s); }
  void clear() { m->clear(); }
};
struct LM : V
{
  IncrJelMerNgramLM m;
  J add(const std::vector<std::string>& w) { J r = J::arr(); for (auto& x : w) r.push((unsigned)m.addSymbol(x)); return r; }
  void codes(J& e, const std::vector<std::string>& w)
  {
    J r = J::arr(); bool f = true;
    for (auto& x : w) { r.push((unsigned)m.stringToWordIndex(x)); f = m.existSymbol(x) && f; }
    e.set("out", r); e.set("found", f);
  }
  void names(J& e, const std::vector<WordIndex>& v) { J r = J::arr(); for (WordIndex i : v) r.push(m.wordIndexToString(i)); e.set("out", r); }
  int size() { return m.getVocabSize(); }
  bool load(const char* f) { return m.loadVocab(f); }
  bool print(const char* f) { return m.printVocab(f); }
  void clear() { m.clearVocab(); }
  bool giza() { return false; }
};
template<class T> struct ENC : V
{
  T m;
  J add(const std::vector<std::string>& w)
  {
    J r = J::arr();
    if (w.size() == 1) {
      WordIndex t;
      if (!m.HighTrg_to_Trg(w[0], t)) { t = m.genHTrgCode(w[0]); m.addHTrgCode(w[0], t); }
      r.push((unsigned)t);
    }
    else {
      std::vector<WordIndex> t;
      if (!m.HighSrc_to_Src(w, t)) { t = m.genHSrcCode(w); m.addHSrcCode(w, t); }
      for (WordIndex i : t) r.push((unsigned)i);
    }
    return r;
  }
  void codes(J& e, const std::vector<std::string>& w)
  {
    J r = J::arr(); bool f;
    if (w.size() == 1) { WordIndex t; f = m.HighTrg_to_Trg(w[0], t); r.push((unsigned)t); }
    else { std::vector<WordIndex> t; f = m.HighSrc_to_Src(w, t); for (WordIndex i : t) r.push((unsigned)i); }
    e.set("out", r); e.set("found", f);
  }
  void names(J& e, const std::vector<WordIndex>& v)
  {
    J r = J::arr(); bool f;
    if (v.size() == 1) { std::string t; f = m.Trg_to_HighTrg(v[0], t); r.push(t); }
    else { std::vector<std::string> t; f = m.Src_to_HighSrc(v, t); for (auto& i : t) r.push(i); }
    e.set("out", r); e.set("found", f);
  }
  int size() { int a = m.sizeSrc(), b = m.sizeTrg(); return a == b ? a : -1; }
  bool load(const char* f) { return m.load(f); }
  bool print(const char* f) { return m.print(f); }
  void clear() { m.clear(); }
  bool giza() { return false; }
};
struct H : VH
{
  std::map<std::string, std::unique_ptr<V> > v; std::string dir; std::set<std::string> files;
  H() { char t[] = "./vocXXXXXX"; dir = mkdtemp(t); }
  ~H() { clean(); rmdir(dir.c_str()); }
  std::string path(const std::string& f) { return dir + "/" + f; }
  void clean() { for (auto& f : files) unlink(path(f).c_str()); files.clear(); }
  template<class T> void pair(const char* a, const char* b) { auto p = std::make_shared<T>(); v[a].reset(new SW<T>(p, true)); v[b].reset(new SW<T>(p, false)); }
  void reset(const J& h)
  {
    clean(); v.clear();
    for (auto& e : h.a) {
      if (!e.has("v")) continue;
      std::string n = e["v"].s;
      if (v.count(n)) continue;
      if (n == "s" || n == "t") pair<SingleWordVocab>("s", "t");
      else if (n == "ps" || n == "pt") pair<WbaIncrPhraseModel>("ps", "pt");
      else if (n == "ss" || n == "st") pair<IncrIbm1AligModel>("ss", "st");
      else if (n == "lm") v[n].reset(new LM);
      else if (n == "ienc") v[n].reset(new ENC<lm_ienc>);
      else v[n].reset(new ENC<vecx_x_incr_enc<std::string, WordIndex> >);
    }
  }
  void apply(J& e)
  {
    std::string op = e["op"].s;
    if (op == "write") {
      std::ofstream o(path(e["f"].s)); files.insert(e["f"].s);
      for (auto& l : e["lines"].a) { bool first = true; for (auto& t : l["t"].a) { o << (first ? "" : " ") << t.s; first = false; } o << "\n"; }
      return;
    }
    V& x = *v[e["v"].s];
    if (op == "add") e.set("out", x.add(e["ws"].strs()));
    else if (op == "codes") x.codes(e, e["ws"].strs());
    else if (op == "names") { std::vector<WordIndex> i; for (auto& n : e["is"].a) i.push_back(n.n); x.names(e, i); }
    else if (op == "size") e.set("out", x.size());
    else if (op == "all") { J r = J::arr(); if (!x.all(r)) e.set("op", "size").set("out", x.size()); else e.set("out", r); }
    else if (op == "bounds") {
      bool f; IncrJelMerNgramLM& m = ((LM&)x).m;
      WordIndex i = m.getBosId(f); e.set("bos", J::obj().set("found", f).set("i", (unsigned)i));
      i = m.getEosId(f); e.set("eos", J::obj().set("found", f).set("i", (unsigned)i));
    }
    else if (op == "print") {
      e.set("ok", x.print(path(e["f"].s).c_str()) == THOT_OK); files.insert(e["f"].s);
      J r = J::arr(); std::ifstream in(path(e["f"].s)); std::string l;
      while (std::getline(in, l)) {
        std::istringstream is(l); J t = J::arr(); std::string w; std::vector<std::string> ts;
        while (is >> w) { t.push(w); ts.push_back(w); }
        size_t k = x.giza() ? 0 : 1;
        r.push(J::obj().set("t", t).set("i", k < ts.size() ? atoi(ts[k].c_str()) : -1));
      }
      e.set("lines", r);
    }
    else if (op == "load") e.set("ok", x.load(path(e["f"].s).c_str()) == THOT_OK);
    else if (op == "clear") x.clear();
    else throw std::runtime_error("unknown op " + op);
  }
};
int main() { H h; return vh_main(h); }
