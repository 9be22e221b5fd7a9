#include "qphys.h"
using namespace qp;
static void stepLaw1() { stepLaw<1>(); }
SIM_PROPERTY(P08, stepLaw1);
static void masterLaw1() { masterLaw<1>(); }
SIM_PROPERTY(P10, masterLaw1);
