// Drives TranslationMetadata (tags) and JsonTranslationMetadata; both keep their state over a history.
#include "vh.h"
#include <bits/stdc++.h>
#include "PhrScoreInfo.h"
#include "TranslationMetadata.h"
#include "JsonTranslationMetadata.h"
typedef BaseTranslationMetadata<PhrScoreInfo> Base;
static std::string join(const J& a) { std::string r; for (auto& x : a.a) r += x.s; return r; }
static std::string str(const std::string& s) { std::string r; J(s).dump(r); return r; }
static std::string field(const char* n, const J& f)
{
  if (f["k"].s == "missing") return "";
  return std::string("\"") + n + "\": " + (f["k"].s == "str" ? str(join(f["v"])) : f["k"].s == "num" ? "12" : f["k"].s == "null" ? "null" : "[\"a\"]") + ",";
}
static std::string json(const J& d)
{
  if (d["k"].s != "obj") return join(d["text"]);
  std::string o = "{ \"id\": [1, {\"x\": true}],";
  const J& s = d["src"];
  if (s["k"].s == "notobj") o += "\"src_title\": \"a b\",";
  else if (s["k"].s != "none") o += "\"src_title\" : {" + field("preprocessed", s) + "\"raw\":\"z\"},";
  if (d["tk"].s == "arr") {
    o += "\"tex_segmentation\":[";
    bool first = true;
    for (auto& t : d["tags"].a) {
      o += first ? "" : ", "; first = false;
      if (t["k"].s == "obj") o += "{" + field("original", t["o"]) + field("translation", t["t"]) + "\"n\":0}";
      else o += t["k"].s == "num" ? "7" : t["k"].s == "strv" ? "\"a\"" : "null";
    }
    o += "],";
  }
  else if (d["tk"].s == "obj") o += "\"tex_segmentation\":{},";
  return o + "\"end\":null}";
}
struct H : VH
{
  Base *x, *j, *c;
  H() : x(0), j(0), c(0) {}
  void reset(const J&) { delete x; delete j; x = new TranslationMetadata<PhrScoreInfo>; j = new JsonTranslationMetadata<PhrScoreInfo>; c = x; }
  static J words(const std::vector<std::string>& v) { J r = J::arr(); for (auto& w : v) r.push(w); return r; }
  void apply(J& e)
  {
    std::string op = e["op"].s;
    if (op == "xml" || op == "json") {
      c = op == "xml" ? x : j;
      std::string t = op == "xml" ? join(e["p"]) : json(e["doc"]);
      c->obtainTransConstraints(t, e.has("v") ? (int)e["v"].n : 0);
      e.set("words", words(c->getSrcSentVec()));
    }
    else if (op == "clear") { c->clear(); e.set("words", words(c->getSrcSentVec())); }
    else if (op == "pure") e.set("words", words(c->getSrcSentVec()));
    else if (op == "cset") { J r = J::arr(); for (auto& p : c->getConstrainedSrcPhrases()) r.push(J::arr().push((int)p.first).push((int)p.second)); e.set("out", r); }
    else if (op == "trans") e.set("out", words(c->getTransForSrcPhr(std::make_pair((PositionIndex)e["a"].n, (PositionIndex)e["b"].n))));
    else if (op == "aff") e.set("out", c->srcPhrAffectedByConstraint(std::make_pair((PositionIndex)e["a"].n, (PositionIndex)e["b"].n)));
    else if (op == "sat") {
      SourceSegmentation s; std::vector<PositionIndex> cuts;
      for (auto& p : e["d"]["seg"].a) s.push_back(std::make_pair((PositionIndex)p.a[0].n, (PositionIndex)p.a[1].n));
      for (auto& p : e["d"]["cuts"].a) cuts.push_back(p.n);
      e.set("out", c->translationSatisfiesConstraints(s, cuts, e["d"]["trg"].strs()));
    }
  }
};
int main() { H h; return vh_main(h); }
