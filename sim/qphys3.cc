#include "qphys.h"
using namespace qp;
static void stepLaw3() { stepLaw<3>(); }
SIM_PROPERTY(P08, stepLaw3);
static void masterLaw3() { masterLaw<3>(); }
SIM_PROPERTY(P10, masterLaw3);
