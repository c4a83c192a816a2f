// Plug-in for the program that estimates alignment models: the kind of model is given by the initialisation parameters.
#include <string>
#include <sstream>
#include "SmoothedIncrIbm1AligModel.h"
#include "SmoothedIncrIbm2AligModel.h"
#include "IncrHmmAligModel.h"
#include "IncrHmmP0AligModel.h"
extern "C" BaseSwAligModel<std::vector<Prob> >* create(const char* p)
{
  std::string k; std::istringstream(p) >> k;
  if (k == "ibm1") return new IncrIbm1AligModel; if (k == "ibm2") return new IncrIbm2AligModel;
  if (k == "sibm1") return new SmoothedIncrIbm1AligModel; if (k == "sibm2") return new SmoothedIncrIbm2AligModel;
  if (k == "hmm") return new IncrHmmAligModel; if (k == "hmmp0") return new IncrHmmP0AligModel;
  return NULL;
}
extern "C" const char* type_id(void) { return "AligModel"; }
