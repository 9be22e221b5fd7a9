// the elementary systems
#include "qm_ia.h"
#include "Mode.tcc"
#include "HomodynedMode.h"
#include "Qbit.h"
#include "Spin.h"
#include "PumpedTwoLevelAtom.h"
#include "TimeIndependentMatrixHamiltonian.h"
#include "Particle.h"
#include "ParsParticle.h"
#include "MultiLevel.h"
#include "BichromaticMode.h"
#include "MLJC.h"
#include "Pars.h"

namespace dense {
template <int HA, bool EX> static structure::FreePtr mk2(const Spec& s, int li) { switch (li) { case 0: return std::make_shared<Free<HA, EX, 0>>(s); case 1: return std::make_shared<Free<HA, EX, 1>>(s); case 2: return std::make_shared<Free<HA, EX, 2>>(s); default: return std::make_shared<Free<HA, EX, 3>>(s); } }
// variant: bits choose roles
FreeModel make(const FreeCfg& c, int pic) {
  sim::Prng p(c.seed * 77 + 5); int n = c.dim; Spec s; s.dim = n; FreeModel m; int ha = c.variant % 4, li = (c.variant / 4) % 4; int exMode = pic < 0 ? c.pic : pic; // 0 none, 1 everything diagonal incl. decay, 2 unitary part only
  s.A = rndHerm(p, n, 1.); bool td = c.flag;
  Mat H = rndHerm(p, n, .8); double j0 = .3 + .9 * p.unit(), j1 = .2 + .7 * p.unit();
  Mat low = Mat::Zero(n, n); for (int i = 1; i < n; ++i) low(i - 1, i) = j0 * (1. + .3 * i); Mat flip = Mat::Zero(n, n); for (int i = 0; i < n; ++i) flip(i, i) = j1 * (i == 1 ? -1. : 1.); Mat any = rndMat(p, n, .5);
  s.special = c.nTh > 0; s.superop = c.kerr > 0;
  if (!ha) H = Mat(H.diagonal().asDiagonal());            // without Hamiltonian only diagonal dynamics is possible...
  if (!ha && exMode == 0) H.setZero();                    // ... and only through the exact part
  if (li == 1) s.J = {{(ha || exMode) ? (ha ? any : low) : flip}};
  if (li == 2) { if (ha) s.J = {{low}, {any}}; else if (exMode) s.J = {{low}, {flip}}; else s.J = {{flip}, {Mat(flip * .6)}}; }
  if (li == 3) s.J = {{flip, 1.1, .4, .5}};               // modulated in time; J+J is proportional to unity, so it does not enter K
  if (exMode == 1 && ha) { // all diagonal decay in the exact part needs diagonal J+J only for that part; anything else stays in the Hamiltonian
  }
  Mat K = -I1 * H; for (auto& j : s.J) if (!j.depth) K -= .5 * j.M.adjoint() * j.M;
  if (exMode) { s.z.resize(n); for (int i = 0; i < n; ++i) { dcomp z = -K(i, i); if (exMode == 2) z = dcomp(0., z.imag()); s.z(i) = z; } if (!ha) for (int i = 0; i < n; ++i) s.z(i) = -K(i, i); double re = 0; for (int i = 0; i < n; ++i) re = std::max(re, std::fabs(s.z(i).real() - s.z(0).real())); s.masterOK = re == 0 && std::fabs(s.z(0).real()) == 0; }
  Mat rest = K; if (exMode) rest += Mat(s.z.asDiagonal());
  if (ha) s.Hs = rest;
  if (ha && td) { s.mod.push_back({Mat(-I1 * rndHerm(p, n, .6)), 1.7, .3}); }
  m.d.K = K; m.d.mod = s.mod; m.d.J = s.J;
  if (!ha && exMode == 0) m.d.K = Mat::Zero(n, n); // (an overall decay constant only rescales)
  int H0 = !ha ? 0 : exMode ? 2 : td ? (c.twoS % 2 ? 2 : 3) : (c.twoS % 2 ? 2 : 1);
  switch (H0) { case 0: m.sys = exMode ? mk2<0, true>(s, li) : mk2<0, false>(s, li); break; case 1: m.sys = mk2<1, false>(s, li); break; case 2: m.sys = exMode ? mk2<2, true>(s, li) : mk2<2, false>(s, li); break; default: m.sys = mk2<3, false>(s, li); }
  m.ex = exMode; m.ha = ha; m.masterOK = s.masterOK; m.top.assign(n, false); m.name = "Dense";
  Mat A = s.A; double w = s.wAv; m.av = [A, w](double t, const Mat& r, std::vector<double>& o) { double a = (A * r).trace().real(), b = (A * A * r).trace().real(); o.push_back(a); o.push_back(b - a * a); o.push_back(std::cos(w * t) * a); };
  return m;
}
static const Spec* specOf(const structure::FreePtr& f) { auto b = dynamic_cast<const SpecBase*>(f.get()); return b ? &b->s : nullptr; }
template <bool H, bool L, bool A> static structure::InteractionPtr<2> mkIA(structure::FreePtr a, structure::FreePtr b, const IASpec& s) { if constexpr (H) if (s.zx.size()) return std::make_shared<IA<H, L, A, true>>(a, b, s); return std::make_shared<IA<H, L, A, false>>(a, b, s); }
IAModel makeIA(const FreeModel& f0, const FreeModel& f1, uint64_t seed, bool lossy, dcomp g, bool exactOK) {
  sim::Prng p(seed * 131 + 9); IASpec s; s.d0 = int(f0.sys->getTotalDimension()); s.d1 = int(f1.sys->getTotalDimension()); int n = s.d0 * s.d1;
  if (auto q = specOf(f0.sys); q && f0.ex) s.z0 = q->z; if (auto q = specOf(f1.sys); q && f1.ex) s.z1 = q->z;
  bool h = std::abs(g) > 0, av = p.below(3) != 0; s.superop = p.below(2); s.special = p.below(3) == 0;
  s.J = Mat::Zero(n, n); if (lossy) { if (h) s.J = rndMat(p, n, .25); else { for (int i = 0; i < n; ++i) s.J(i, i) = .5 * (i % 3 == 1 ? -1. : 1.); } }
  s.G = Mat::Zero(n, n); if (h) s.G = -I1 * rndHerm(p, n, std::abs(g)); if (lossy && h) s.G -= .5 * s.J.adjoint() * s.J; s.A = rndHerm(p, n, 1.);
  IAModel r; r.d.K = s.G; // next to elements without Hamiltonian, the interaction may have an exact part of its own
  if (exactOK && h && !f0.ha && !f1.ha && (f0.ex || f1.ex || seed % 2)) { s.zx = -s.G.diagonal(); s.G += Mat(s.zx.asDiagonal()); r.ex = true; }
  if (lossy) r.d.J.push_back({s.J});
  r.ia = h ? (lossy ? (av ? mkIA<true, true, true>(f0.sys, f1.sys, s) : mkIA<true, true, false>(f0.sys, f1.sys, s)) : (av ? mkIA<true, false, true>(f0.sys, f1.sys, s) : mkIA<true, false, false>(f0.sys, f1.sys, s)))
           : (lossy ? (av ? mkIA<false, true, true>(f0.sys, f1.sys, s) : mkIA<false, true, false>(f0.sys, f1.sys, s)) : (av ? mkIA<false, false, true>(f0.sys, f1.sys, s) : mkIA<false, false, false>(f0.sys, f1.sys, s)));
  Mat A = s.A; if (av) r.av = [A](double, const Mat& q, std::vector<double>& o) { double a = (A * q).trace().real(), b = (A * A * q).trace().real(); o.push_back(a); o.push_back(b - a * a); };
  return r;
}
}

namespace qm {
static void pushMat(std::vector<double>& o, double x) { o.push_back(x); }

// what the various averagings of a mode display: 1 quadratures too, 2 the population of the last level too, 3 both
static AvRef modeAv(int n, int how) { Mat a = lower(n), num = a.adjoint() * a, a2 = a * a; return [=](double, const Mat& r, std::vector<double>& o) { double N = (num * r).trace().real(), N2 = (num * num * r).trace().real(); dcomp A = (a * r).trace(), S = (a2 * r).trace(); o.push_back(N); o.push_back(N2 - N * N); o.push_back(A.real()); o.push_back(A.imag());
  if (how & 1) { o.push_back(N + .5 + S.real() - 2 * A.real() * A.real()); o.push_back(N + .5 - S.real() - 2 * A.imag() * A.imag()); o.push_back(S.imag() - 2 * A.real() * A.imag()); }
  if (how & 2) o.push_back(r(n - 1, n - 1).real()); }; }
template <typename P> static mode::Ptr modeOf(const P& p, int pic, int how) { using namespace mode; switch (how) { case 1: return make<AveragedQuadratures>(p, picture(pic)); case 2: return make<AveragedMonitorCutoff<>>(p, picture(pic)); case 3: return make<AveragedMonitorCutoff<AveragedQuadratures>>(p, picture(pic)); default: return make(p, picture(pic)); } }
static FreeModel mkMode(const FreeCfg& c, int pic) {
  parameters::Table t; mode::ParsPumpedLossy p(t); p.cutoff = c.dim; p.delta = c.delta; p.kappa = c.kappa; p.nTh = c.nTh; p.eta = c.eta; p.omegaKerr = c.kerr; p.omegaKerrAlter = c.alter;
  FreeModel m; mode::Ptr q; int how = c.variant & 3; m.name = "Mode";
  if (c.flag && pic == 1 && c.kappa > 0 && std::abs(c.eta) > 0) { how = 0; m.name = "Mode(alternative jumps)"; if (c.nTh > 0) q = std::make_shared<PumpedLossyModeAlternative<true>>(p); else q = std::make_shared<PumpedLossyModeAlternative<false>>(p); } else q = modeOf(p, pic, how);
  m.sys = q; m.typed = std::shared_ptr<const void>(q, q.get());
  int n = c.dim; Mat a = lower(n), num = a.adjoint() * a; dcomp z(c.kappa * (2 * c.nTh + 1), -c.delta);
  Mat kk = Mat::Zero(n, n); for (int i = 0; i < n; ++i) kk(i, i) = double(i) * (i - 1);
  m.d.K = -z * num + c.eta * a.adjoint() - std::conj(c.eta) * a - I1 * (c.kerr + c.alter) * kk;
  if (c.kappa > 0) { m.d.J.push_back({Mat(std::sqrt(2 * c.kappa * (c.nTh + 1)) * a)}); if (c.nTh > 0) m.d.J.push_back({Mat(std::sqrt(2 * c.kappa * c.nTh) * a.adjoint())}); }
  m.ex = pic != 0; m.masterOK = !(pic == 1 && c.kappa > 0); m.top.assign(n, false); m.top[n - 1] = true; m.ha = dynamic_cast<const structure::Hamiltonian<1>*>(m.sys.get()) != nullptr;
  m.av = modeAv(n, how);
  return m; }
// the output of the mode mixed with a local oscillator before it is detected: the jumps are displaced, and the Hamiltonian so that the master equation stays the same
static FreeModel mkHomo(const FreeCfg& c, int) {
  parameters::Table t; mode::ParsHomodyned<mode::ParsPumpedLossy> p(t); p.cutoff = c.dim; p.delta = c.delta; p.kappa = c.kappa; p.nTh = c.nTh; p.eta = c.eta; p.omegaKerr = c.kerr; p.omegaKerrAlter = c.alter; p.homodyneAmplitude = c.homo; int how = c.variant & 1;
  FreeModel m; mode::Ptr q = how ? mode::make<mode::AveragedQuadratures>(p) : mode::make<mode::Averaged>(p); m.sys = q; m.typed = std::shared_ptr<const void>(q, q.get()); m.name = "HomodynedMode"; int n = c.dim; Mat a = lower(n), num = a.adjoint() * a; Mat kk = Mat::Zero(n, n); for (int i = 0; i < n; ++i) kk(i, i) = double(i) * (i - 1);
  double k0 = std::sqrt(2 * c.kappa * (c.nTh + 1)), k1 = std::sqrt(2 * c.kappa * c.nTh); Mat J0 = c.homo * id(n) + k0 * a, J1 = std::conj(c.homo) * id(n) + k1 * a.adjoint(); Mat x = std::conj(c.homo) * a;
  m.d.K = -dcomp(c.kappa * (2 * c.nTh + 1), -c.delta) * num + c.eta * a.adjoint() - std::conj(c.eta) * a - I1 * (c.kerr + c.alter) * kk - .5 * (k0 + k1) * (x + x.adjoint()); m.d.J = {{J0}, {J1}};
  m.masterOK = false; m.top.assign(n, false); m.top[n - 1] = true; m.av = modeAv(n, how); return m; }
static FreeModel mkBichro(const FreeCfg& c, int) {
  parameters::Table t; mode::ParsBichromatic p(t); p.cutoff = c.dim; p.delta = c.delta; p.kappa = c.kappa; p.nTh = c.nTh; p.eta = c.eta; p.omegaKerr = 0; p.omegaKerrAlter = 0; p.deltaOther = c.par; p.etaOther = c.eta2;
  FreeModel m; auto q = mode::make<mode::Averaged>(p, QMP_IP); m.sys = q; m.typed = std::shared_ptr<const void>(q, q.get()); m.name = "BichromaticMode";
  int n = c.dim; Mat a = lower(n), num = a.adjoint() * a; dcomp z(c.kappa * (2 * c.nTh + 1), -c.delta);
  m.d.K = -z * num + c.eta * a.adjoint() - std::conj(c.eta) * a;
  // second pump, in the frame rotating with the first one: eta2 exp(-i(delta'-delta)t) a+ - h.c.
  double w = c.par - c.delta; Mat X = c.eta2 * a.adjoint(), Xr = X - X.adjoint(), Xi = -I1 * (X + X.adjoint()); (void)Xi;
  m.d.mod.push_back({Xr, w, 0.}); m.d.mod.push_back({Mat(-I1 * (X + X.adjoint())), w, -M_PI / 2});
  if (c.kappa > 0) { m.d.J.push_back({Mat(std::sqrt(2 * c.kappa * (c.nTh + 1)) * a)}); if (c.nTh > 0) m.d.J.push_back({Mat(std::sqrt(2 * c.kappa * c.nTh) * a.adjoint())}); }
  m.ex = true; m.masterOK = c.kappa == 0; m.top.assign(n, false); m.top[n - 1] = true;
  m.av = [a, num](double, const Mat& r, std::vector<double>& o) { double N = (num * r).trace().real(), N2 = (num * num * r).trace().real(); dcomp A = (a * r).trace(); o.push_back(N); o.push_back(N2 - N * N); o.push_back(A.real()); o.push_back(A.imag()); };
  return m; }
static void qbitAv(FreeModel& m) { m.av = [](double, const Mat& r, std::vector<double>& o) { o.push_back(r(0, 0).real()); o.push_back(r(1, 1).real()); o.push_back(r(1, 0).real()); o.push_back(r(1, 0).imag()); }; }
static FreeModel mkQbit(const FreeCfg& c, int pic) {
  parameters::Table t; qbit::ParsPumpedLossyPhaseNoise p(t); p.delta = c.delta; p.gamma = c.kappa; p.eta = c.eta; p.gamma_parallel = c.par;
  FreeModel m; qbit::Ptr q = c.par > 0 ? qbit::make(p, picture(pic)) : qbit::make(static_cast<const qbit::ParsPumpedLossy&>(p), picture(pic)); m.sys = q; m.typed = std::shared_ptr<const void>(q, q.get()); m.name = "Qbit";
  Mat a = lower(2), num = a.adjoint() * a; m.d.K = -dcomp(c.kappa, -c.delta) * num - c.eta * a.adjoint() + std::conj(c.eta) * a;
  bool li = dynamic_cast<const structure::Liouvillean<1>*>(m.sys.get());
  if (c.par > 0) { if (c.kappa > 0 || li) { m.d.J.push_back({Mat(std::sqrt(2 * c.kappa) * a)}); Mat sz = Mat::Zero(2, 2); sz(0, 0) = 1; sz(1, 1) = -1; m.d.J.push_back({Mat(std::sqrt(2 * c.par) * sz)}); } }
  else if (c.kappa > 0) m.d.J.push_back({Mat(std::sqrt(2 * c.kappa) * a)});
  auto ex = dynamic_cast<const structure::ExactCommon*>(m.sys.get()); m.ex = ex; m.masterOK = ex ? ex->applicableInMaster() : true; m.ha = dynamic_cast<const structure::Hamiltonian<1>*>(m.sys.get()) != nullptr; m.top.assign(2, false); qbitAv(m); return m; }
static FreeModel mkSpin(const FreeCfg& c, int pic) {
  parameters::Table t; spin::Pars p(t); p.twoS = c.twoS; p.dim = c.dim == c.twoS + 1 ? (c.fin == 2 ? c.dim + 3 : c.fin ? c.dim : 0) : c.dim; p.theta = c.theta; p.phi = c.phi; p.omega = c.delta; p.gamma = c.kappa; bool lossy = c.kappa > 0;
  FreeModel m; spin::Ptr q; if (pic) { if (lossy) q = std::make_shared<LossySpin>(p); else q = std::make_shared<Spin>(p); } else { if (lossy) q = std::make_shared<LossySpinSch>(p); else q = std::make_shared<SpinSch>(p); }
  m.sys = q; m.typed = std::shared_ptr<const void>(q, q.get()); m.name = "Spin"; int n = c.dim; double s = c.twoS / 2.; Mat sp = Mat::Zero(n, n), sz = Mat::Zero(n, n); for (int i = 0; i < n; ++i) { sz(i, i) = i - s; if (i + 1 < n) sp(i + 1, i) = std::sqrt((c.twoS - i) * (i + 1.)); } Mat sm = sp.adjoint(), sx = (sp + sm) / 2., sy = (sp - sm) / (2. * I1);
  double th = pic ? 0. : c.theta, ph = pic ? 0. : c.phi; Mat sn = std::sin(th) * (std::cos(ph) * sx + std::sin(ph) * sy) + std::cos(th) * sz; m.d.K = -dcomp(c.kappa, c.delta) * sn; if (lossy) m.d.J.push_back({Mat(std::sqrt(2 * c.kappa) * sm)});
  m.ex = pic; m.ha = !pic; m.masterOK = !(pic && lossy); m.top.assign(n, false);
  m.av = [sz, sp, n](double, const Mat& r, std::vector<double>& o) { double a = (sz * r).trace().real(), b = (sz * sz * r).trace().real(); dcomp x = (sp * r).trace(); o.push_back(a); o.push_back(b - a * a); o.push_back(x.real()); o.push_back(x.imag()); o.push_back(r(n - 1, n - 1).real()); };
  return m; }
static FreeModel mkML(const FreeCfg& c, int) {
  using namespace multilevel; constexpr int NL = 3; typedef Pump<0, 1> P01; typedef Pump<0, 2> P02; typedef Decay<0, 2> D02; typedef Decay<1, 2> D12;
  RealPerLevel<NL> d; d = c.delta, -.5 * c.delta, .3 + c.theta; FreeModel m; m.name = "MultiLevel"; double g0 = c.kappa, g1 = .6 * c.kappa + .1;
  bool off = c.variant & 1; auto etas = make_vector(P01(c.eta), P02(c.eta2)); auto gammas = make_vector(D02(g0), D12(g1));
  std::shared_ptr<const MultiLevelBase<NL>> q; Vec gp = Vec::Zero(NL);
  if (c.par > 0 && c.flag) { RealPerLevel<NL> v; v = c.par, .5 * c.par, 1.7 * c.par; q = makePumpedLossySch<NL>(d, etas, gammas, v, "PumpedLossyMultiLevelSch", off); gp << c.par, .5 * c.par, 1.7 * c.par; }
  else { q = makePumpedLossySch<NL>(d, etas, gammas, c.par, "PumpedLossyMultiLevelSch", off); gp.setConstant(c.par); }
  m.sys = q; m.typed = std::shared_ptr<const void>(q, q.get()); Mat K = Mat::Zero(NL, NL); for (int i = 0; i < NL; ++i) K(i, i) = I1 * d(i); K(2, 2) -= g0 + g1; K(0, 1) += std::conj(c.eta); K(1, 0) -= c.eta; K(0, 2) += std::conj(c.eta2); K(2, 0) -= c.eta2; m.d.K = K;
  Mat J = Mat::Zero(NL, NL); J(0, 2) = std::sqrt(2 * g0); m.d.J.push_back({J}); J.setZero(); J(1, 2) = std::sqrt(2 * g1); m.d.J.push_back({J});
  if (c.par > 0) for (int i = 0; i < NL; ++i) { J = std::sqrt(2 * gp(i).real()) * id(NL); J(i, i) *= -1.; m.d.J.push_back({J}); }
  m.top.assign(NL, false); m.av = [off](double, const Mat& r, std::vector<double>& o) { for (int i = 0; i < 3; ++i) o.push_back(r(i, i).real()); if (off) for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 3; ++j) { o.push_back(r(i, j).real()); o.push_back(r(i, j).imag()); } };
  return m; }
static FreeModel mkTLA(const FreeCfg& c, int) {
  parameters::Table t; qbit::ParsPumpedLossy p(t); p.delta = c.delta; p.gamma = c.kappa; p.eta = c.eta; FreeModel m; m.sys = std::make_shared<PumpedTwoLevelAtomSch>(p); m.name = "PumpedTwoLevelAtom"; Mat a = lower(2);
  Mat K = Mat::Zero(2, 2); K(0, 1) = std::conj(c.eta); K(1, 0) = -c.eta; K(1, 1) = dcomp(-c.kappa, c.delta); m.d.K = K; m.d.J.push_back({Mat(std::sqrt(2 * c.kappa) * a)}); m.top.assign(2, false); qbitAv(m); return m; }
static FreeModel mkMatrix(const FreeCfg& c, int) {
  sim::Prng p(c.seed); Mat H = rndHerm(p, c.dim, 1.); linalg::CMatrix h(c.dim, c.dim); for (int i = 0; i < c.dim; ++i) for (int j = 0; j < c.dim; ++j) h(i, j) = H(i, j) / I1;
  FreeModel m; m.sys = std::make_shared<TimeIndependentMatrixHamiltonian>(h); m.name = "MatrixHamiltonian"; m.d.K = H / I1; m.top.assign(c.dim, false); m.av = [](double, const Mat&, std::vector<double>&) {}; return m; }
static Mat shiftOp(int n, int k) { Mat m = Mat::Zero(n, n); for (int i = 0; i < n; ++i) if (i + k >= 0 && i + k < n) m(i + k, i) = 1.; return m; } // exp(i k x): |k'> -> |k'+k>
static FreeModel mkParticle(const FreeCfg& c, int pic, bool pumped) {
  parameters::Table t; particle::ParsPumped p(t); p.omrec = c.omrec; p.fin = c.fin; p.vClass = c.vClass; p.kPart = c.nK; p.modePart = ModeFunctionType(c.mf); FreeModel m; int n = 1 << c.fin;
  Mat K = Mat::Zero(n, n); for (int i = 0; i < n; ++i) { double k = i - n / 2; K(i, i) = -I1 * c.omrec * k * k; }
  if (pumped) { auto q = particle::makePumped(p, picture(pic)); m.sys = q; m.typed = std::shared_ptr<const void>(q, q.get()); if (c.mf == MFT_SIN || c.mf == MFT_COS) K += c.vClass * (c.mf == MFT_SIN ? -1. : 1.) * (shiftOp(n, 2 * c.nK) + shiftOp(n, -2 * c.nK)) / 2. / (2. * I1); }
  else { auto q = particle::make(p, picture(pic)); m.sys = q; m.typed = std::shared_ptr<const void>(q, q.get()); }
  m.d.K = K; m.name = pumped ? "PumpedParticle" : "Particle"; m.ex = pic; m.ha = pumped || !pic; m.top.assign(n, false);
  m.av = [n](double, const Mat& r, std::vector<double>& o) { double a = 0, b = 0; for (int i = 0; i < n; ++i) { double k = i - n / 2; a += k * r(i, i).real(); b += k * k * r(i, i).real(); } o.push_back(a); o.push_back(b - a * a);
    double x1 = 0, x2 = 0; for (int i = 0; i < n; ++i) { double x = -M_PI + 2 * M_PI * i / n; Vec e(n); for (int k = 0; k < n; ++k) e(k) = std::exp(-I1 * double(k - n / 2) * x) / std::sqrt(double(n)); double p = e.dot(r * e).real(); x1 += x * p; x2 += x * x * p; } o.push_back(x1); o.push_back(std::sqrt(std::max(0., x2 - x1 * x1))); };
  return m; }

FreeModel makeFree(const FreeCfg& c, int picArg) {
  int pic = picArg < 0 ? c.pic : picArg;
  switch (c.kind) { case F_MODE: return mkMode(c, pic); case F_QBIT: return mkQbit(c, pic); case F_SPIN: return mkSpin(c, pic); case F_ML: return mkML(c, pic); case F_TLA: return mkTLA(c, pic); case F_MATRIX: return mkMatrix(c, pic);
    case F_PARTICLE: return mkParticle(c, pic, false); case F_PPARTICLE: return mkParticle(c, pic, true); case F_BICHRO: return mkBichro(c, pic); case F_HOMO: return mkHomo(c, pic); default: return dense::make(c, pic); } }

template <> Model<1> build<1>(const Cfg& c, int pic) { FreeModel f = makeFree(c.f[0], pic); Model<1> m; m.name = f.name; m.sys = f.sys; m.dims[0] = f.sys->getTotalDimension(); m.N = m.dims[0]; m.d = f.d; m.av = f.av; m.masterOK = f.masterOK; m.ex = f.ex; m.ha = f.ha; m.top = f.top; return m; }

IABuild buildMLJC(const FreeModel& f0, const FreeModel& f1, dcomp g, dcomp g2) {
  typedef boost::fusion::vector<Coupling<0, 1>, Coupling<0, 2>> VC; parameters::Table t; mljc::Pars<VC> p(t); p.gs = VC(Coupling<0, 1>(g), Coupling<0, 2>(g2)); IABuild b; b.name = "MLJC"; int n = int(f1.sys->getTotalDimension());
  b.ia = std::make_shared<MLJC<3, VC>>(std::static_pointer_cast<const MultiLevelBase<3>>(f0.typed), std::static_pointer_cast<const ModeBase>(f1.typed), p);
  b.d.K = Mat::Zero(3 * n, 3 * n); dcomp gs[2] = {g, g2}; for (int k = 0; k < 2; ++k) { Mat s = Mat::Zero(3, 3); s(0, k + 1) = 1.; Mat x = std::conj(gs[k]) * kron(s, lower(n).adjoint()); b.d.K += x - x.adjoint(); }
  return b; }
}
