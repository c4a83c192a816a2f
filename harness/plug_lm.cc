// Language model plug-in: the real model, reporting when it is trained; reads are points where another thread may go on.
#include "IncrJelMerNgramLM.h"
#include <string>
extern "C" void vp_use(const char*, long, int);
extern "C" void vp_yield();
struct L : IncrJelMerNgramLM
{
  int trainSentence(std::vector<std::string> v, Count c = 1, Count l = 0, int verb = 0) { vp_use("train", 0, 1); int r = IncrJelMerNgramLM::trainSentence(v, c, l, verb); vp_use("train", 0, 0); return r; }
  LgProb getLgProbEndGivenState(std::vector<WordIndex>& s) { vp_yield(); return IncrJelMerNgramLM::getLgProbEndGivenState(s); }
};
extern "C" BaseNgramLM<std::vector<WordIndex> >* create(const char*) { return new L; }
extern "C" const char* type_id(void) { return "L"; }
