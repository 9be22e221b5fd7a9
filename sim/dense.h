// Elements written the way a user of the framework writes elements, on generic dense operators: every combination of the
// framework's roles (Hamiltonian with its time-dependence levels, Exact, Liouvillean, Averaged), and interactions between them.
#pragma once
#include "qm.h"
#include "FreeExact.h"
#include "Hamiltonian.h"
#include "ElementLiouvillean.h"
#include "ElementAveraged.h"
#include "Interaction.h"
#include "LazyDensityOperator.h"

namespace dense {
using namespace qm;
using SV1 = quantumdata::StateVectorLow<1>; using SV2 = quantumdata::StateVectorLow<2>;

struct Spec {                      // what the element is made of
  int dim = 2; Vec z;              // exact part: exp(-z t), empty if none
  Mat Hs; std::vector<Modulated> mod;   // the rest of K
  std::vector<Jump> J; bool special = false, superop = false, masterOK = true;
  Mat A; double wAv = .7;          // averaged observable
};
struct SpecBase { const Spec s; explicit SpecBase(const Spec& x) : s(x) {} virtual ~SpecBase() {} };

// ---- roles
template <int HA> struct Ham;
inline void applyDense(const Spec& s, double t, double tau, const SV1& psi, SV1& d) {
  int n = s.dim; Mat h = s.Hs; for (auto& m : s.mod) h += m.f(t) * m.M;
  for (int i = 0; i < n; ++i) { dcomp acc = 0; for (int j = 0; j < n; ++j) { dcomp x = h(i, j); if (s.z.size() && i != j) x *= std::exp((s.z(i) - s.z(j)) * tau); acc += x * psi(j); } d(i) += acc; } }
template <> struct Ham<0> { explicit Ham(const SpecBase*) {} };
template <> struct Ham<1> : structure::HamiltonianTimeDependenceDispatched<1, structure::TimeDependence::NO> { const SpecBase* b; explicit Ham(const SpecBase* x) : b(x) {} void addContribution_v(structure::NoTime, const SV1& p, SV1& d) const override { applyDense(b->s, 0, 0, p, d); } };
template <> struct Ham<2> : structure::Hamiltonian<1> { const SpecBase* b; explicit Ham(const SpecBase* x) : b(x) {} void addContribution_v(double t, const SV1& p, SV1& d, double t0) const override { applyDense(b->s, t, t - t0, p, d); } };
template <> struct Ham<3> : structure::HamiltonianTimeDependenceDispatched<1, structure::TimeDependence::ONE> { const SpecBase* b; explicit Ham(const SpecBase* x) : b(x) {} void addContribution_v(structure::OneTime t, const SV1& p, SV1& d) const override { applyDense(b->s, double(t), 0, p, d); } };

template <bool EX> struct Exa { explicit Exa(const SpecBase*) {} };
template <> struct Exa<true> : structure::FreeExact<false> { const SpecBase* b; explicit Exa(const SpecBase* x) : structure::FreeExact<false>(x->s.dim), b(x) {}
  void updateU(structure::OneTime t) const override { for (int i = 0; i < b->s.dim; ++i) getDiagonal()(i) = std::exp(-b->s.z(i) * double(t)); }
  bool applicableInMaster_v() const override { return b->s.masterOK; } };

inline void actJ(const Mat& j, SV1& psi) { int n = psi.extent(0); Vec v(n); for (int i = 0; i < n; ++i) v(i) = psi(i); v = j * v; for (int i = 0; i < n; ++i) psi(i) = v(i); }
inline double rateOf(const Mat& j, const quantumdata::LazyDensityOperator<1>& m) { Mat q = j.adjoint() * j; dcomp r = 0; for (int i = 0; i < q.rows(); ++i) for (int k = 0; k < q.cols(); ++k) r += q(i, k) * (i == k ? dcomp(m(i)) : dcomp(m(k)(i))); return r.real(); }
inline void superOf(const Mat& j, const quantumdata::DensityOperatorLow<1>& rho, quantumdata::DensityOperatorLow<1>& d) { int n = rho.extent(0); Mat r(n, n); for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) r(i, k) = rho(i, k); r = (j * r * j.adjoint()).eval(); for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) d(i, k) += r(i, k); }
template <int LI> struct Lio;
template <> struct Lio<0> { explicit Lio(const SpecBase*) {} };
template <> struct Lio<1> : structure::ElementLiouvillean<1, 1> { const SpecBase* b; explicit Lio(const SpecBase* x) : structure::ElementLiouvillean<1, 1>("Dense", "jump"), b(x) {}
  void doActWithJ(structure::NoTime, SV1& psi) const override { actJ(b->s.J[0].M, psi); }
  double rate(structure::NoTime, const quantumdata::LazyDensityOperator<1>& m) const override { return b->s.special ? -1. : rateOf(b->s.J[0].M, m); }
  void doActWithSuperoperator(structure::NoTime, const quantumdata::DensityOperatorLow<1>& r, quantumdata::DensityOperatorLow<1>& d) const override { if (!b->s.superop) throw structure::SuperoperatorNotImplementedException(0); superOf(b->s.J[0].M, r, d); } };
template <> struct Lio<2> : structure::ElementLiouvillean<1, 2> { const SpecBase* b; explicit Lio(const SpecBase* x) : structure::ElementLiouvillean<1, 2>("Dense", {"jump 0", "jump 1"}), b(x) {}
  void doActWithJ(structure::NoTime, SV1& psi, LindbladNo<0>) const override { actJ(b->s.J[0].M, psi); }
  void doActWithJ(structure::NoTime, SV1& psi, LindbladNo<1>) const override { actJ(b->s.J[1].M, psi); }
  double rate(structure::NoTime, const quantumdata::LazyDensityOperator<1>& m, LindbladNo<0>) const override { return rateOf(b->s.J[0].M, m); }
  double rate(structure::NoTime, const quantumdata::LazyDensityOperator<1>& m, LindbladNo<1>) const override { return b->s.special ? -1. : rateOf(b->s.J[1].M, m); }
  void doActWithSuperoperator(structure::NoTime, const quantumdata::DensityOperatorLow<1>& r, quantumdata::DensityOperatorLow<1>& d, LindbladNo<1>) const override { if (!b->s.superop) throw structure::SuperoperatorNotImplementedException(1); superOf(b->s.J[1].M, r, d); } };
template <> struct Lio<3> : structure::ElementLiouvillean<1, 1, true> { const SpecBase* b; explicit Lio(const SpecBase* x) : structure::ElementLiouvillean<1, 1, true>("Dense", "modulated jump"), b(x) {}
  void doActWithJ(structure::OneTime t, SV1& psi) const override { actJ(b->s.J[0].at(double(t)), psi); }
  double rate(structure::OneTime t, const quantumdata::LazyDensityOperator<1>& m) const override { return b->s.special ? -1. : rateOf(b->s.J[0].at(double(t)), m); }
  void doActWithSuperoperator(structure::OneTime t, const quantumdata::DensityOperatorLow<1>& r, quantumdata::DensityOperatorLow<1>& d) const override { if (!b->s.superop) throw structure::SuperoperatorNotImplementedException(0); superOf(b->s.J[0].at(double(t)), r, d); } };

template <int HA, bool EX, int LI> struct Free : SpecBase, structure::Free, Ham<HA>, Exa<EX>, Lio<LI>, structure::ElementAveraged<1, true> {
  explicit Free(const Spec& x) : SpecBase(x), structure::Free(x.dim, {RF{"w", scaleOf(x), 1.}}), Ham<HA>(this), Exa<EX>(this), Lio<LI>(this), structure::ElementAveraged<1, true>("Dense", {"<A>", "VAR(A)", "cos(wt)<A>"}) {}
  static double scaleOf(const Spec& x) { return x.Hs.size() ? x.Hs.cwiseAbs().maxCoeff() + .1 : 1.; }
  const structure::Averages average_v(structure::OneTime t, const quantumdata::LazyDensityOperator<1>& m) const override {
    auto av(initializedAverages()); Mat A2 = s.A * s.A; dcomp a = 0, b = 0; for (int i = 0; i < s.dim; ++i) for (int k = 0; k < s.dim; ++k) { dcomp r = i == k ? dcomp(m(i)) : dcomp(m(k)(i)); a += s.A(i, k) * r; b += A2(i, k) * r; }
    av(0) = a.real(); av(1) = b.real(); av(2) = std::cos(s.wAv * double(t)) * a.real(); return av; }
  void process_v(structure::Averages& a) const override { a(1) -= a(0) * a(0); }
};

// ---- interaction between two elements (frames z0,z1 empty: no exact part)
struct IASpec { int d0, d1; Vec z0, z1, zx; Mat G; Mat J; bool superop = false, special = false; Mat A; };
struct IAHam : structure::Hamiltonian<2> { const IASpec& s; explicit IAHam(const IASpec& x) : s(x) {}
  void addContribution_v(double t, const SV2& psi, SV2& d, double t0) const override { double tau = t - t0; int n = s.d0 * s.d1; Vec v(n), e(n);
    for (int i = 0; i < s.d0; ++i) for (int j = 0; j < s.d1; ++j) { dcomp z = (s.z0.size() ? s.z0(i) : 0.) + (s.z1.size() ? s.z1(j) : 0.) + (s.zx.size() ? s.zx(i * s.d1 + j) : 0.); e(i * s.d1 + j) = std::exp(z * tau); v(i * s.d1 + j) = psi(i, j) / e(i * s.d1 + j); }
    v = (s.G * v).eval(); for (int i = 0; i < s.d0; ++i) for (int j = 0; j < s.d1; ++j) d(i, j) += e(i * s.d1 + j) * v(i * s.d1 + j); } };
struct IAExa : structure::ExactTimeDependenceDispatched<2, false> { const IASpec& s; explicit IAExa(const IASpec& x) : s(x) {}   // exact part of its own
  void actWithU_v(structure::OneTime t, SV2& psi) const override { for (int i = 0; i < s.d0; ++i) for (int j = 0; j < s.d1; ++j) psi(i, j) *= std::exp(-s.zx(i * s.d1 + j) * double(t)); }
  bool applicableInMaster_v() const override { return false; } };
struct IALio : structure::ElementLiouvillean<2, 1> { const IASpec& s; explicit IALio(const IASpec& x) : structure::ElementLiouvillean<2, 1>("Dense interaction", "joint jump"), s(x) {}
  void doActWithJ(structure::NoTime, SV2& psi) const override { Vec v(s.d0 * s.d1); for (int i = 0; i < s.d0; ++i) for (int j = 0; j < s.d1; ++j) v(i * s.d1 + j) = psi(i, j); v = (s.J * v).eval(); for (int i = 0; i < s.d0; ++i) for (int j = 0; j < s.d1; ++j) psi(i, j) = v(i * s.d1 + j); }
  double rate(structure::NoTime, const quantumdata::LazyDensityOperator<2>& m) const override { if (s.special) return -1.; using Ix = quantumdata::LazyDensityOperator<2>::Idx; Mat q = s.J.adjoint() * s.J; dcomp r = 0;
    for (int i = 0; i < s.d0; ++i) for (int j = 0; j < s.d1; ++j) for (int k = 0; k < s.d0; ++k) for (int l = 0; l < s.d1; ++l) { Ix a(i, j), b(k, l); r += q(i * s.d1 + j, k * s.d1 + l) * (i == k && j == l ? dcomp(m(a)) : dcomp(m(b)(a))); } return r.real(); }
  void doActWithSuperoperator(structure::NoTime, const quantumdata::DensityOperatorLow<2>& r, quantumdata::DensityOperatorLow<2>& d) const override { if (!s.superop) throw structure::SuperoperatorNotImplementedException(0); int n = s.d0 * s.d1; Mat x(n, n);
    for (int i = 0; i < s.d0; ++i) for (int j = 0; j < s.d1; ++j) for (int k = 0; k < s.d0; ++k) for (int l = 0; l < s.d1; ++l) x(i * s.d1 + j, k * s.d1 + l) = r(i, j, k, l);
    x = (s.J * x * s.J.adjoint()).eval(); for (int i = 0; i < s.d0; ++i) for (int j = 0; j < s.d1; ++j) for (int k = 0; k < s.d0; ++k) for (int l = 0; l < s.d1; ++l) d(i, j, k, l) += x(i * s.d1 + j, k * s.d1 + l); } };
struct IAAv : structure::ElementAveraged<2> { const IASpec& s; explicit IAAv(const IASpec& x) : structure::ElementAveraged<2>("Dense interaction", {"<A>", "VAR(A)"}), s(x) {}
  const structure::Averages average_v(structure::NoTime, const quantumdata::LazyDensityOperator<2>& m) const override { auto av(initializedAverages()); using Ix = quantumdata::LazyDensityOperator<2>::Idx; Mat A2 = s.A * s.A; dcomp r = 0, r2 = 0;
    for (int i = 0; i < s.d0; ++i) for (int j = 0; j < s.d1; ++j) for (int k = 0; k < s.d0; ++k) for (int l = 0; l < s.d1; ++l) { Ix a(i, j), b(k, l); dcomp e = (i == k && j == l) ? dcomp(m(a)) : dcomp(m(b)(a)); r += s.A(i * s.d1 + j, k * s.d1 + l) * e; r2 += A2(i * s.d1 + j, k * s.d1 + l) * e; }
    av(0) = r.real(); av(1) = r2.real(); return av; }
  void process_v(structure::Averages& a) const override { a(1) -= a(0) * a(0); } };
struct IABase { const IASpec s; explicit IABase(const IASpec& x) : s(x) {} };
template <bool B, typename T> struct MaybeIA : T { explicit MaybeIA(const IASpec& x) : T(x) {} };
template <typename T> struct MaybeIA<false, T> { explicit MaybeIA(const IASpec&) {} };
struct TagH; 
template <bool H, bool L, bool A, bool X> struct IA : IABase, structure::Interaction<2>, std::conditional_t<X, IAExa, MaybeIA<false, IAExa>>, std::conditional_t<H, IAHam, MaybeIA<false, IAHam>>, std::conditional_t<L, IALio, MaybeIA<false, IALio>>, std::conditional_t<A, IAAv, MaybeIA<false, IAAv>> {
  IA(structure::FreePtr f0, structure::FreePtr f1, const IASpec& x) : IABase(x), structure::Interaction<2>({f0, f1}, {RF{"g", x.G.cwiseAbs().maxCoeff() + .1, 1.}}), std::conditional_t<X, IAExa, MaybeIA<false, IAExa>>(IABase::s), std::conditional_t<H, IAHam, MaybeIA<false, IAHam>>(IABase::s), std::conditional_t<L, IALio, MaybeIA<false, IALio>>(IABase::s), std::conditional_t<A, IAAv, MaybeIA<false, IAAv>>(IABase::s) {} };

FreeModel make(const FreeCfg&, int pic);                 // qm_free.cc
struct IAModel { structure::InteractionPtr<2> ia; Dyn d; AvRef av; bool ex = false; };
IAModel makeIA(const FreeModel& f0, const FreeModel& f1, uint64_t seed, bool lossy, dcomp g, bool exactOK);   // qm_free.cc; for dense elements or elements without exact part
}
