#pragma once
#include "dense.h"
#include "Interaction.h"
namespace qm {
enum IAKind { IA_JCQ, IA_JCS, IA_NX, IA_XX, IA_RWA, IA_DICKE, IA_MLJC, IA_PORTHO, IA_PALONG, IA_PPALONG, IA_DENSE, IA_IDENT, IA_NKINDS };
enum TriKind { T_QQM, T_MQM, T_D3A, T_D3B, T_MPM, T_NKINDS };
struct IABuild { structure::InteractionPtr<2> ia; Dyn d; AvRef av; std::string name; bool ex = false; };
IABuild buildIA(int arr, const FreeModel& f0, const FreeModel& f1, const FreeCfg& c0, const FreeCfg& c1, dcomp g, dcomp g2, int variant, uint64_t seed, bool lossy, bool exactOK = false);
IABuild buildMLJC(const FreeModel& f0, const FreeModel& f1, dcomp g, dcomp g2);   // qm_free.cc (MultiLevel.h may be included in one translation unit only)
Mat modeFn(int n, int mf, int k); Mat modeFnComp(int n, int f1, int f2, int k);
}
