// systems of two subsystems, by way of BinarySystem or Composite
#include "qm_ia.h"
#include "BinarySystem.h"
#include "Composite.tcc"
#include "JaynesCummings.h"
#include "CoupledModes.h"
#include "GeneralDicke.h"
#include "ParticleCavity.h"
#include "IdenticalParticles.h"
#include "ModeCorrelations.h"
#include "QbitModeCorrelations.h"

namespace qm {
static Mat tens(const Mat& a, const Mat& b) { return kron(a, b); }
static Mat shift(int n, int k) { Mat m = Mat::Zero(n, n); for (int i = 0; i < n; ++i) if (i + k >= 0 && i + k < n) m(i + k, i) = 1.; return m; }
Mat modeFn(int n, int mf, int k) { Mat p = shift(n, k), m = shift(n, -k); switch (mf) { case MFT_SIN: return (p - m) / (2. * I1); case MFT_COS: return (p + m) / 2.; case MFT_PLUS: return p; default: return m; } }
// conj(f1) f2 for equal wave numbers, as a function of position first, then truncated
Mat modeFnComp(int n, int f1, int f2, int k) {
  auto coeff = [](int f) { std::array<dcomp, 2> c{0., 0.}; switch (f) { case MFT_SIN: c = {1. / (2. * I1), -1. / (2. * I1)}; break; case MFT_COS: c = {.5, .5}; break; case MFT_PLUS: c = {1., 0.}; break; default: c = {0., 1.}; } return c; };
  auto a = coeff(f1), b = coeff(f2); Mat r = Mat::Zero(n, n); int e[2] = {k, -k}; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) r += std::conj(a[i]) * b[j] * shift(n, e[j] - e[i]); return r; }
static int dimOf(const FreeModel& f) { return int(f.sys->getTotalDimension()); }
static Mat sMinus(const FreeModel& f) { int n = dimOf(f), t = int(std::static_pointer_cast<const SpinBase>(f.typed)->getTwoS()); Mat m = Mat::Zero(n, n); for (int i = 0; i + 1 < n; ++i) m(i, i + 1) = std::sqrt((t - i) * (i + 1.)); return m; }
static AvRef jcAv(int n) { Mat a = lower(n), s = lower(2), z = Mat::Zero(2, 2); z(1, 1) = .5; z(0, 0) = -.5;
  return [=](double, const Mat& r, std::vector<double>& o) { auto put = [&](const Mat& m) { dcomp x = (m * r).trace(); o.push_back(x.real()); o.push_back(x.imag()); }; put(kron(s, a.adjoint())); put(kron(s, a)); put(kron(z, a)); }; }

// both modes alone (as with quadratures), then the covariances of their quadratures
static AvRef cmAv(int n0, int n1) { Mat a = kron(lower(n0), id(n1)), b = kron(id(n0), lower(n1)), X = (a + a.adjoint()) / std::sqrt(2.), Y = (a - a.adjoint()) / (I1 * std::sqrt(2.)), Q = (b + b.adjoint()) / std::sqrt(2.), P = (b - b.adjoint()) / (I1 * std::sqrt(2.));
  return [=](double, const Mat& r, std::vector<double>& o) { auto ex = [&](const Mat& m) { return (m * r).trace(); };
    for (const Mat& c : {a, b}) { Mat num = c.adjoint() * c; double N = ex(num).real(), N2 = ex(num * num).real(); dcomp A = ex(c), S = ex(c * c); o.push_back(N); o.push_back(N2 - N * N); o.push_back(A.real()); o.push_back(A.imag()); o.push_back(N + .5 + S.real() - 2 * A.real() * A.real()); o.push_back(N + .5 - S.real() - 2 * A.imag() * A.imag()); o.push_back(S.imag() - 2 * A.real() * A.imag()); }
    for (const Mat& u : {X, Y}) for (const Mat& v : {Q, P}) o.push_back((ex(u * v) - ex(u) * ex(v)).real()); }; }

IABuild buildIA(int arr, const FreeModel& f0, const FreeModel& f1, const FreeCfg& c0, const FreeCfg& c1, dcomp g, dcomp g2, int variant, uint64_t seed, bool lossy, bool exactOK) {
  IABuild b; int n0 = dimOf(f0), n1 = dimOf(f1); b.d.K = Mat::Zero(n0 * n1, n0 * n1);
  auto mode = [](const FreeModel& f) { return std::static_pointer_cast<const ModeBase>(f.typed); };
  switch (arr) {
  case IA_JCQ: { auto q = std::static_pointer_cast<const QbitBase>(f0.typed); bool av = variant & 1; b.name = "JaynesCummings";
    if (av) { b.ia = jaynescummings::make<QbitModeCorrelations>(q, mode(f1), g); b.av = jcAv(n1); } else b.ia = jaynescummings::make(q, mode(f1), g);
    Mat x = std::conj(g) * tens(lower(2), lower(n1).adjoint()); b.d.K = x - x.adjoint(); break; }
  case IA_JCS: { auto s = std::static_pointer_cast<const SpinBase>(f0.typed); b.ia = jaynescummings::make(s, mode(f1), g); b.name = "JaynesCummings(spin)"; Mat x = std::conj(g) * tens(sMinus(f0), lower(n1).adjoint()); b.d.K = x - x.adjoint(); break; }
  case IA_NX: case IA_XX: case IA_RWA: { Mat x0 = (lower(n0) + lower(n0).adjoint()) / std::sqrt(2.), x1 = (lower(n1) + lower(n1).adjoint()) / std::sqrt(2.), N0 = lower(n0).adjoint() * lower(n0);
    bool cor = variant & 1; if (cor) b.av = cmAv(n0, n1);
    if (arr == IA_NX) { if (cor) b.ia = coupledmodes::make<coupledmodes::CM_NX, ModeCorrelations>(mode(f0), mode(f1), g); else b.ia = coupledmodes::make<coupledmodes::CM_NX>(mode(f0), mode(f1), g); b.d.K = g.real() * tens(N0, x1) / I1; b.name = "CoupledModes(nx)"; }
    else if (arr == IA_XX) { if (cor) b.ia = coupledmodes::make<coupledmodes::CM_XX, ModeCorrelations>(mode(f0), mode(f1), g); else b.ia = coupledmodes::make<coupledmodes::CM_XX>(mode(f0), mode(f1), g); b.d.K = g.real() * tens(x0, x1) / I1; b.name = "CoupledModes(xx)"; }
    else { if (cor) b.ia = coupledmodes::make<coupledmodes::CM_XX_RWA, ModeCorrelations>(mode(f0), mode(f1), g); else b.ia = coupledmodes::make<coupledmodes::CM_XX_RWA>(mode(f0), mode(f1), g); Mat x = std::conj(g) * tens(lower(n0), lower(n1).adjoint()); b.d.K = x - x.adjoint(); b.name = "CoupledModes(rwa)"; }
    break; }
  case IA_DICKE: { auto s = std::static_pointer_cast<const SpinBase>(f1.typed); double S = s->getTwoS() / 2.; Mat sz = Mat::Zero(n1, n1); for (int i = 0; i < n1; ++i) sz(i, i) = i - S; Mat sx = (sMinus(f1) + sMinus(f1).adjoint()) / 2.;
    b.ia = std::make_shared<GeneralDicke<>>(mode(f0), s, g.real(), g2.real()); b.d.K = (g.real() * tens(lower(n0).adjoint() * lower(n0), sz + S * id(n1)) + g2.real() * tens(lower(n0) + lower(n0).adjoint(), sx)) / I1; b.name = "GeneralDicke"; break; }
  case IA_IDENT: { b.ia = std::make_shared<IdenticalParticles<2>>(std::static_pointer_cast<const ParticleBase>(f0.typed)); b.name = "IdenticalParticles"; break; }
  case IA_MLJC: return buildMLJC(f0, f1, g, g2);
  case IA_PORTHO: { auto p = std::static_pointer_cast<const PumpedParticleBase>(f1.typed); parameters::Table t; particlecavity::ParsOrthogonal q(t); q.uNot = g.real(); b.ia = std::make_shared<ParticleOrthogonalToCavity>(mode(f0), p, q); double e = (g.real() < 0 ? -1. : 1.) * std::sqrt(g.real() * c1.vClass);
    Mat x = tens(lower(n0), modeFn(n1, c1.mf, c1.nK)); b.d.K = e * (x + x.adjoint()) / I1; b.name = "ParticleOrthogonalToCavity"; break; }
  case IA_PALONG: case IA_PPALONG: { parameters::Table t; particlecavity::ParsAlongGenericPump q(t); q.uNot = g.real(); q.etaeff = g2.real(); q.kCav = 1 + (variant & 1); q.modeCav = ModeFunctionType((variant >> 1) & 3); int mf = q.modeCav, k = int(q.kCav); bool derived = variant >= 16; double v = arr == IA_PALONG ? g2.real() : c1.vClass; if (derived) { q.uNot = std::copysign(q.uNot, v); q.etaeff = 7.; /* must not matter */ } const double u = q.uNot, e = derived ? (v < 0 ? -1. : 1.) * std::sqrt(u * v) : q.etaeff; const particlecavity::ParsAlong& qa = q; Mat a = lower(n0), N = a.adjoint() * a;
    if (mf == MFT_SIN || mf == MFT_COS) b.d.K += u * (mf == MFT_SIN ? -1. : 1.) * tens(N, modeFn(n1, MFT_COS, 2 * k)) / (2. * I1);
    if (arr == IA_PALONG) { auto p = std::static_pointer_cast<const ParticleBase>(f1.typed); if (derived) b.ia = std::make_shared<ParticleAlongCavity>(mode(f0), p, qa, v); else b.ia = std::make_shared<ParticleAlongCavity>(mode(f0), p, q); Mat x = tens(a, modeFn(n1, mf, k)); b.d.K += e * (x + x.adjoint()) / I1; }
    else { auto p = std::static_pointer_cast<const PumpedParticleBase>(f1.typed); if (derived) b.ia = std::make_shared<ParticleAlongCavity>(mode(f0), p, qa); else b.ia = std::make_shared<ParticleAlongCavity>(mode(f0), p, q);
      if (k == c1.nK) { Mat x = tens(a.adjoint(), modeFnComp(n1, mf, c1.mf, k)); b.d.K += e * (x + x.adjoint()) / I1; }
      else { Mat fc = modeFn(n1, mf, k), fp = modeFn(n1, c1.mf, c1.nK); b.d.K += e * (tens(a, fp.adjoint() * fc) + tens(a.adjoint(), fp * fc.adjoint())) / I1; } }
    b.name = "ParticleAlongCavity"; break; }
  default: { auto m = dense::makeIA(f0, f1, seed, lossy, g, exactOK); b.ex = m.ex; b.ia = m.ia; b.d = m.d; b.av = m.av; b.name = "Dense interaction"; } }
  return b; }

template <> Model<2> build<2>(const Cfg& c, int pic) {
  FreeModel f[2] = {makeFree(c.f[0], pic), makeFree(c.f[1], pic)}; IABuild b = buildIA(c.arr, f[0], f[1], c.f[0], c.f[1], c.g, c.g2, c.variant, c.seed, c.lossyIA, true);
  Model<2> m; int how = (c.variant / 8) % 3; bool swap = how == 2; 
  m.sys = how == 0 ? structure::QuantumSystemPtr<2>(binary::make(b.ia)) : how == 1 ? structure::QuantumSystemPtr<2>(composite::make(composite::_<0, 1>(b.ia))) : structure::QuantumSystemPtr<2>(composite::make(composite::_<1, 0>(b.ia)));
  FreeModel& A = f[swap]; FreeModel& B = f[!swap]; size_t nA = dimOf(A), nB = dimOf(B); m.dims = {nA, nB}; m.N = nA * nB; std::vector<size_t> dv{nA, nB}; std::vector<int> slots = swap ? std::vector<int>{1, 0} : std::vector<int>{0, 1};
  add(m.d, embed(dv, {0}, A.d)); add(m.d, embed(dv, {1}, B.d)); add(m.d, embed(dv, slots, b.d));
  m.name = std::string(how == 0 ? "Binary(" : how == 1 ? "Composite01(" : "Composite10(") + A.name + "," + B.name + "," + b.name + ")";
  m.masterOK = A.masterOK && B.masterOK && !b.ex; m.ex = A.ex || B.ex || b.ex; m.ha = true; m.top.resize(m.N); for (size_t i = 0; i < nA; ++i) for (size_t j = 0; j < nB; ++j) m.top[i * nB + j] = A.top[i] || B.top[j];
  AvRef a0 = A.av, a1 = B.av, a2 = b.av; m.av = [=](double t, const Mat& r, std::vector<double>& o) { a0(t, ptrace(dv, {0}, r), o); a1(t, ptrace(dv, {1}, r), o); if (a2) a2(t, ptrace(dv, slots, r), o); };
  return m; }
}
