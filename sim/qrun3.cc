#include "qrun.h"
static void runs3() { ql::guarded(qr::runs<3>); }
SIM_PROPERTY(P14, runs3);
