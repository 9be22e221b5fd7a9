#include "qphys.h"
using namespace qp;
static void stepLaw2() { stepLaw<2>(); }
SIM_PROPERTY(P08, stepLaw2);
static void masterLaw2() { masterLaw<2>(); }
SIM_PROPERTY(P10, masterLaw2);
