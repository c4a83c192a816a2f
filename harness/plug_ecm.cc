// Error correction model plug-in: the real model for word graphs, or (with VP_ECM set) one that word-graph processors do not accept.
#include "PfsmEcmForWg.h"
#include <cstdlib>
extern "C" void vp_use(const char*, long, int);
struct E : PfsmEcmForWg
{
  int trainStrPair(const char* x, const char* y, int v = 0) { vp_use("train", 1, 1); int r = PfsmEcmForWg::trainStrPair(x, y, v); vp_use("train", 1, 0); return r; }
};
struct N : PfsmEcm
{
  int trainStrPair(const char* x, const char* y, int v = 0) { vp_use("train", 1, 1); int r = PfsmEcm::trainStrPair(x, y, v); vp_use("train", 1, 0); return r; }
};
extern "C" BaseErrorCorrectionModel* create(const char*) { const char* e = getenv("VP_ECM"); return e && *e ? (BaseErrorCorrectionModel*)new N : (BaseErrorCorrectionModel*)new E; }
extern "C" const char* type_id(void) { return "E"; }
