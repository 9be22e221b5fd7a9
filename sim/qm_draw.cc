// random systems
#include "qm_ia.h"
#include "ModeFunction.h"
namespace qm {
// mostly from a few values, which makes coincidences likely; sometimes anything
static bool anyValues = false; static double off() { return anyValues ? .35 + 1.5 * (double(sim::draw(4096)) / 4096.) : 1.; }
static double pick(std::initializer_list<double> l) { return *(l.begin() + sim::draw(l.size())) * off(); }
static dcomp cpick(bool zeroOK = true) { static const dcomp v[] = {0., {.5, 0.}, {.4, -.3}, {-.2, .7}, {0., -.6}}; dcomp r = v[zeroOK ? sim::draw(5) : 1 + sim::draw(4)] * off(); return anyValues ? r * std::exp(6.28 * (double(sim::draw(4096)) / 4096.) * I1) : r; }

static FreeCfg drawFree(int kind, const Want& w, int maxDim) {
  FreeCfg c; c.kind = kind; c.pic = int(sim::draw(3)); c.delta = pick({-1.1, 0., .7, 2.3}); c.kappa = pick({.4, 0., .9, .15, .4, 0., .9, .004}); c.eta = cpick();
  bool wide = maxDim > 9;
  switch (kind) {
  case F_MODE: c.dim = 3 + int(sim::draw(std::max(1, maxDim - 2))); c.nTh = c.kappa > 0 ? pick({0., .5, 0., 0., .5, .03}) : 0.; c.kerr = pick({0., 0., .3}); c.variant = int(sim::draw(4)); c.flag = sim::chance(1, 3); c.alter = pick({0., 0., 0., -.25}); if (wide) { c.kerr *= .05; c.alter *= .05; } break;
  case F_HOMO: c.dim = 3 + int(sim::draw(std::max(1, maxDim - 2))); if (c.kappa == 0) c.kappa = .6; c.nTh = pick({0., .4, 0.}); c.kerr = pick({0., .3}); c.alter = pick({0., .2}); c.homo = cpick(false); c.variant = int(sim::draw(2)); c.pic = 0; break;
  case F_BICHRO: c.dim = 3 + int(sim::draw(std::max(1, maxDim - 2))); c.eta = cpick(false); c.eta2 = cpick(false); c.par = pick({.9, -1.4}); c.nTh = c.kappa > 0 ? pick({0., .5}) : 0.; break;
  case F_QBIT: c.dim = 2; c.par = pick({0., .25}); break;
  case F_SPIN: c.twoS = 1 + int(sim::draw(wide ? 12 : 3)); c.theta = c.pic ? 0. : pick({0., .6}); c.phi = c.pic ? 0. : pick({0., 1.2}); if (c.kappa > 0) c.theta = c.phi = 0; c.dim = c.twoS + 1; c.fin = int(sim::draw(3)); if (c.twoS > 2 && sim::chance(1, 3)) c.dim = 2 + int(sim::draw(c.twoS - 1)); if (c.delta == 0) c.delta = .5; break;
  case F_ML: c.dim = 3; c.eta2 = cpick(false); if (c.eta == 0.) c.eta = .5; c.par = pick({0., .2}); c.flag = sim::draw(2); if (c.kappa == 0) c.kappa = .3; c.theta = .4; c.variant = int(sim::draw(2)); break;
  case F_TLA: c.dim = 2; if (c.kappa == 0) c.kappa = .3; if (c.eta == 0.) c.eta = .5; break;
  case F_MATRIX: c.dim = 2 + int(sim::draw(wide ? 18 : 3)); c.seed = 1 + sim::draw(50); break;
  case F_PARTICLE: case F_PPARTICLE: c.fin = 2 + int(maxDim >= 8 ? sim::draw(wide ? 4 : 2) : 0); c.dim = 1 << c.fin; c.omrec = pick({.4, 1.}) / (wide ? 8. : 1.); c.vClass = kind == F_PPARTICLE ? pick({.8, .3, -.5, .8, .3, 0.}) : 0.; c.nK = sim::chance(1, 3) ? 1 + int(sim::draw(c.fin)) : 1; c.mf = int(sim::draw(4)); break;
  default: c.dim = 2 + int(sim::draw(std::max(1, std::min(wide ? 12 : 3, maxDim - 1)))); c.variant = int(sim::draw(16)); c.seed = 1 + sim::draw(200); c.twoS = int(sim::draw(2)); c.nTh = double(sim::draw(2)); c.kerr = double(sim::draw(2)); c.flag = sim::chance(1, 3) && !w.noTimeDep; }
  return c; }

Cfg drawCfg(int rank, Want w) {
  anyValues = sim::chance(1, 3); bool wide = sim::chance(1, 24);
  Cfg c; c.rank = rank; c.seed = 1 + sim::draw(1000); c.variant = int(sim::draw(32)); c.lossyIA = sim::chance(1, 2); c.g = cpick(); c.g2 = cpick();
  auto fr = [&](int i, int kind, int maxDim) { c.f[i] = drawFree(kind, w, maxDim); };
  if (rank == 1) { static const int ks[] = {F_MODE, F_DENSE, F_QBIT, F_SPIN, F_ML, F_TLA, F_PPARTICLE, F_MATRIX, F_PARTICLE, F_BICHRO, F_DENSE, F_MODE, F_HOMO}; int k = ks[sim::draw(13)]; if (w.master && k == F_HOMO) k = F_MODE; if (w.noTimeDep && k == F_BICHRO) k = F_MODE; fr(0, k, wide ? 33 : 8); }
  if (rank == 2) { int w4 = wide ? 9 : 4, w3 = wide ? 6 : 3, w8 = wide ? 16 : 8, w5 = sim::draw(3) == 2 ? 5 : w3;
    static const int ar[] = {IA_JCQ, IA_DENSE, IA_RWA, IA_JCS, IA_NX, IA_XX, IA_DICKE, IA_MLJC, IA_PORTHO, IA_PALONG, IA_PPALONG, IA_DENSE, IA_IDENT}; c.arr = ar[sim::draw(13)];
    switch (c.arr) {
    case IA_JCQ: fr(0, F_QBIT, 2); fr(1, F_MODE, w4); break; case IA_JCS: fr(0, F_SPIN, w8 > 8 ? 10 : 3); fr(1, F_MODE, w4); break;
    case IA_NX: case IA_XX: case IA_RWA: fr(0, F_MODE, w5); fr(1, F_MODE, w4); break;
    case IA_DICKE: fr(0, F_MODE, w4); fr(1, F_SPIN, w8 > 8 ? 10 : 3); break;
    case IA_MLJC: fr(0, F_ML, 3); fr(1, F_MODE, w4); break;
    case IA_PORTHO: fr(0, F_MODE, w5); fr(1, F_PPARTICLE, 4); c.g = std::copysign(.8 * off(), c.f[1].vClass); break;
    case IA_PALONG: fr(0, F_MODE, w3); fr(1, F_PARTICLE, w8); break;
    case IA_PPALONG: fr(0, F_MODE, w3); fr(1, F_PPARTICLE, w8); break;
    case IA_IDENT: fr(0, F_PARTICLE, 4); c.f[1] = c.f[0]; break;
    default: fr(0, F_DENSE, w5); fr(1, F_DENSE, w4); if (sim::chance(1, 4)) for (int i = 0; i < 2; ++i) c.f[i].variant -= c.f[i].variant % 4; /* then the interaction may have an exact part */ } }
  if (rank == 3) { c.arr = int(sim::draw(T_NKINDS)); if (c.g == 0.) c.g = .5; if (c.g2 == 0.) c.g2 = dcomp(.2, .3);
    switch (c.arr) { case T_QQM: fr(0, F_QBIT, 2); fr(1, F_QBIT, 2); fr(2, F_MODE, 3); break; case T_MQM: fr(0, F_MODE, 3); fr(1, F_QBIT, 2); fr(2, F_MODE, 3); break; case T_D3A: case T_D3B: fr(0, F_DENSE, 3); fr(1, F_DENSE, 2); fr(2, F_DENSE, 3); break;
      default: fr(0, F_MODE, 3); fr(1, F_PARTICLE, 4); fr(2, F_MODE, 3); } }
  for (auto& f : c.f) { // the modes' own truncation: with thermal excitation the decay amplitude and the jump operators of a truncated mode do not match at the top level
    if (w.truncSafe) f.nTh = f.kind == F_DENSE ? f.nTh : 0.; if (w.master && f.pic == 1) f.pic = 0; if (w.master && f.kind == F_QBIT && f.par > 0) f.pic = 2; /* its other pictures do not admit the Master equation */ if (w.master && f.kind == F_DENSE && f.pic) f.variant = f.variant % 4 + (f.variant / 4 % 2 ? 12 : 0); /* jumps that commute with the exact part */ if (w.master && f.kind == F_BICHRO) f.kappa = f.nTh = 0;
    if (w.exactOnly && f.pic == 0) f.pic = 1; }
  bool ex = false; for (int i = 0; i < rank; ++i) ex |= c.f[i].pic != 0; if (rank > 1 && ex) for (auto& f : c.f) f.twoS |= f.kind == F_DENSE; // next to an exact part, time-dependent Hamiltonians must distinguish t and t0
  if (w.master) for (int i = 0; i < rank; ++i) if (c.f[i].kind == F_DENSE && c.f[i].pic) c.lossyIA = false;
  if (w.master && rank == 2 && c.f[0].kind == F_DENSE && c.f[0].variant % 4 == 0 && c.f[1].variant % 4 == 0) ++c.f[0].variant;
  for (int i = 0; i < rank; ++i) if (c.f[i].kind != F_DENSE && c.f[i].nTh > 0) thermalDrawn() = true;
  return c; }
bool hasTimeDep(const Cfg& c) { for (int i = 0; i < c.rank; ++i) if (c.f[i].kind == F_BICHRO || (c.f[i].kind == F_DENSE && c.f[i].flag)) return true; return false; }
std::string describe(const Cfg& c) {
  static const char* fk[] = {"mode", "qbit", "spin", "multilevel", "tla", "matrix", "particle", "pumped-particle", "dense", "bichromatic", "homodyned"}; static const char* pc[] = {"Sch", "IP", "UIP"}; std::ostringstream o; o << "rank " << c.rank << " arr " << c.arr << " var " << c.variant;
  for (int i = 0; i < c.rank; ++i) { auto& f = c.f[i]; o << " [" << fk[f.kind] << " " << pc[f.pic] << " dim " << f.dim << " delta " << f.delta << " kappa " << f.kappa << " nTh " << f.nTh << " kerr " << f.kerr << (f.alter ? "+" : "") << " eta " << f.eta << " var " << f.variant << (f.flag ? " flag" : "") << "]"; }
  if (c.rank > 1) o << " g " << c.g << " g2 " << c.g2 << (c.lossyIA ? " lossyIA" : ""); return o.str(); }
}
