// systems of three subsystems (Composite)
#include "qm_ia.h"
#include "Composite.tcc"
#include "ParticleTwoModes.h"

namespace qm {
template <> Model<3> build<3>(const Cfg& c, int pic) {
  FreeModel f[3] = {makeFree(c.f[0], pic), makeFree(c.f[1], pic), makeFree(c.f[2], pic)}; Model<3> m; std::vector<size_t> dv; for (int i = 0; i < 3; ++i) { dv.push_back(f[i].sys->getTotalDimension()); m.dims[i] = dv[i]; }
  m.N = dv[0] * dv[1] * dv[2]; std::vector<AvRef> av; std::vector<std::vector<int>> avs; m.name = "Composite3(" + f[0].name + "," + f[1].name + "," + f[2].name;
  for (int i = 0; i < 3; ++i) { add(m.d, embed(dv, {i}, f[i].d)); av.push_back(f[i].av); avs.push_back({i}); m.masterOK = m.masterOK && f[i].masterOK; m.ex = m.ex || f[i].ex; }
  auto ia = [&](int kind, int a, int b, dcomp g, uint64_t s) { IABuild x = buildIA(kind, f[a], f[b], c.f[a], c.f[b], g, c.g2, c.variant, c.seed + s, c.lossyIA); add(m.d, embed(dv, {a, b}, x.d)); if (x.av) { av.push_back(x.av); avs.push_back({a, b}); } m.name += "," + x.name + std::to_string(a) + std::to_string(b); return x.ia; };
  switch (c.arr) {
  case T_QQM: { auto x = ia(IA_JCQ, 0, 2, c.g, 0), y = ia(IA_JCQ, 1, 2, c.g2, 1); m.sys = composite::make(Act<0, 2>(x), Act<1, 2>(y)); break; }
  case T_MQM: { auto x = ia(IA_JCQ, 1, 2, c.g, 0), y = ia(IA_JCQ, 1, 0, c.g2, 1); m.sys = composite::make(Act<1, 2>(x), Act<1, 0>(y)); break; }
  case T_D3A: { auto x = ia(IA_DENSE, 0, 1, c.g, 0), y = ia(IA_DENSE, 1, 2, c.g2, 1); m.sys = composite::make(Act<0, 1>(x), Act<1, 2>(y)); break; }
  case T_D3B: { auto x = ia(IA_DENSE, 2, 0, c.g, 0), y = ia(IA_DENSE, 1, 2, c.g2, 1); m.sys = composite::make(Act<2, 0>(x), Act<1, 2>(y)); break; }
  default: { // a particle in the middle of two modes: three interactions
    parameters::Table t0, t1; particlecavity::ParsAlong p0(t0), p1(t1); p0.uNot = c.g.real(); p1.uNot = .7 * c.g.real(); p0.kCav = 1; p1.kCav = 1 + (c.variant & 1); p0.modeCav = ModeFunctionType((c.variant >> 1) & 3); p1.modeCav = ModeFunctionType((c.variant >> 3) & 3);
    auto mo = [&](int i) { return std::static_pointer_cast<const ModeBase>(f[i].typed); }; auto pa = std::static_pointer_cast<const ParticleBase>(f[1].typed);
    Cfg cc = c; auto x = ia(IA_PALONG, 0, 1, c.g, 0); auto tw = std::make_shared<ParticleTwoModes>(mo(0), mo(2), pa, p0, p1, 0.);
    m.sys = composite::make(Act<0, 1>(x), Act<0, 2, 1>(structure::InteractionPtr<3>(tw))); m.name += ",ParticleTwoModes021";
    int n0 = int(dv[0]), n2 = int(dv[2]), np = int(dv[1]); double u = std::copysign(std::sqrt(p0.uNot * p1.uNot), p0.uNot); Dyn d; Mat a0 = lower(n0), a1 = lower(n2);
    if (p0.kCav == p1.kCav) { Mat q = u * kron(kron(a0.adjoint(), a1), modeFnComp(np, p0.modeCav, p1.modeCav, int(p0.kCav))); d.K = (q + q.adjoint()) / I1; }
    else { Mat f0 = modeFn(np, p0.modeCav, int(p0.kCav)), f1 = modeFn(np, p1.modeCav, int(p1.kCav)); d.K = u * (kron(kron(a0, a1.adjoint()), f1.adjoint() * f0) + kron(kron(a0.adjoint(), a1), f1 * f0.adjoint())) / I1; }
    add(m.d, embed(dv, {0, 2, 1}, d)); } }
  m.name += ")"; m.top.resize(m.N); for (size_t i = 0; i < m.N; ++i) m.top[i] = f[0].top[i / (dv[1] * dv[2])] || f[1].top[(i / dv[2]) % dv[1]] || f[2].top[i % dv[2]];
  m.av = [=](double t, const Mat& r, std::vector<double>& o) { for (size_t i = 0; i < av.size(); ++i) av[i](t, ptrace(dv, avs[i], r), o); };
  return m; }
}
