#include "qrun.h"
static void runs1() { ql::guarded(qr::runs<1>); }
SIM_PROPERTY(P14, runs1);
