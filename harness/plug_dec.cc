// Stack decoder plug-in: the real decoder, reporting when it is used.
#include "PhrHypNumcovJumps01EqClassF.h"
#include "PbTransModel.h"
#include "multi_stack_decoder_rec.h"
#include <string>
extern "C" void vp_use(const char*, long, int);
extern "C" void vp_yield();
typedef PbTransModel<PhrHypNumcovJumps01EqClassF> M;
static long nobj = 0;
struct D : multi_stack_decoder_rec<M>
{
  long id;
  D() : id(__sync_add_and_fetch(&nobj, 1)) {}
  struct U { long o; U(long x) : o(x) { vp_use("use", o, 1); } ~U() { vp_use("use", o, 0); } };
  Hypothesis translate(std::string s) { U u(id); Hypothesis h = multi_stack_decoder_rec<M>::translate(s); vp_yield(); return h; }
  Hypothesis translateWithRef(std::string s, std::string r) { U u(id); return multi_stack_decoder_rec<M>::translateWithRef(s, r); }
  Hypothesis verifyCoverageForRef(std::string s, std::string r) { U u(id); Hypothesis h = multi_stack_decoder_rec<M>::verifyCoverageForRef(s, r); vp_yield(); return h; }
};
extern "C" BaseStackDecoder<M>* create(const char*) { return new D; }
extern "C" const char* type_id(void) { return "D"; }
