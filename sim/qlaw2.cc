#include "qlaw.h"
static void observation2() { ql::guarded(ql::observation<2>); }
SIM_PROPERTY(P15, observation2);
static void sharing2() { ql::guarded(ql::sharing<2>); }
SIM_PROPERTY(P12, sharing2);
static void ensemble2() { ql::guarded(ql::ensemble<2>); }
SIM_PROPERTY(P11, ensemble2);
static void pictures2() { ql::guarded(ql::pictures<2>); }
SIM_PROPERTY(P13, pictures2);
static void display2() { ql::guarded(ql::display<2>); }
SIM_PROPERTY(P16, display2);
static void retries2() { ql::guarded(ql::retries<2>); }
SIM_PROPERTY(P09, retries2);
static void resume2() { ql::guarded(ql::resume<2>); }
SIM_PROPERTY(P01, resume2);
ql::Offer ql::offer2() { return ql::offer<2>(); }
static void foreign2() { ql::guarded(ql::foreign<2>); }
SIM_PROPERTY(P03, foreign2);
static void logs2() { ql::guarded(ql::logs<2>); }
SIM_PROPERTY(P17, logs2);
