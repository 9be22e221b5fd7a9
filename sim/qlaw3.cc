#include "qlaw.h"
static void observation3() { ql::guarded(ql::observation<3>); }
SIM_PROPERTY(P15, observation3);
static void sharing3() { ql::guarded(ql::sharing<3>); }
SIM_PROPERTY(P12, sharing3);
static void ensemble3() { ql::guarded(ql::ensemble<3>); }
SIM_PROPERTY(P11, ensemble3);
static void pictures3() { ql::guarded(ql::pictures<3>); }
SIM_PROPERTY(P13, pictures3);
static void display3() { ql::guarded(ql::display<3>); }
SIM_PROPERTY(P16, display3);
static void retries3() { ql::guarded(ql::retries<3>); }
SIM_PROPERTY(P09, retries3);
static void resume3() { ql::guarded(ql::resume<3>); }
SIM_PROPERTY(P01, resume3);
ql::Offer ql::offer3() { return ql::offer<3>(); }
static void foreign3() { ql::guarded(ql::foreign<3>); }
SIM_PROPERTY(P03, foreign3);
static void logs3() { ql::guarded(ql::logs<3>); }
SIM_PROPERTY(P17, logs3);
