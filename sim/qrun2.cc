#include "qrun.h"
static void runs2() { ql::guarded(qr::runs<2>); }
SIM_PROPERTY(P14, runs2);
