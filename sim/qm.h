// Quantum systems for the simulator: the library's own elements (and generic dense elements written the way a user writes
// elements), each paired with an independent dense description of the same physics:  dpsi/dt = K(t) psi between jumps, jumps J_k(t).
#pragma once
#include "simkit.h"
#include "QM_Picture.h"
#include "QuantumSystem.h"
#include "Free.h"
#include "StateVector.h"
#include "DensityOperator.h"
#include <Eigen/Dense>
#include <array>
#include <cmath>
#include <functional>
#include <memory>

namespace qm {
using Mat = Eigen::MatrixXcd; using Vec = Eigen::VectorXcd;
inline const dcomp I1(0., 1.);

// ---------------------------------------------------------------- configuration: numbers only, so that any number of identical systems can be built from it
struct FreeCfg {
  int kind = 0;                         // see FreeKind
  int pic = 0;                          // 0 Schroedinger, 1 interaction picture, 2 unitary interaction picture
  int dim = 2;
  double delta = 0, kappa = 0, nTh = 0, kerr = 0, par = 0, theta = 0, phi = 0, omrec = 0, vClass = 0, alter = 0; dcomp eta = 0, eta2 = 0, homo = 0;
  int twoS = 1, fin = 2, nK = 1, mf = 0, variant = 0; bool flag = false;
  uint64_t seed = 0;                    // for the dense elements
};
enum FreeKind { F_MODE, F_QBIT, F_SPIN, F_ML, F_TLA, F_MATRIX, F_PARTICLE, F_PPARTICLE, F_DENSE, F_BICHRO, F_HOMO, F_NKINDS };
struct Cfg { int rank = 1; int arr = 0; FreeCfg f[3]; dcomp g = 0, g2 = 0; int variant = 0; uint64_t seed = 0; bool lossyIA = false; };

// operators modulated in time: sum_m cos(w t + phi) M
struct Modulated { Mat M; double w, phi; double f(double t) const { return std::cos(w * t + phi); } };
struct Jump { Mat M; double w = 0, phi = 0, depth = 0; /* |J|^2 is scaled by 1+depth cos(w t+phi) */ Mat at(double t) const { return depth ? Mat(M * std::sqrt(1. + depth * std::cos(w * t + phi))) : M; } };
struct Dyn { Mat K; std::vector<Modulated> mod; std::vector<Jump> J;
  bool timeDep() const { return !mod.empty(); } bool timeDepJ() const { for (auto& j : J) if (j.depth) return true; return timeDep(); }
  Mat Kt(double t) const { Mat r = K; for (auto& m : mod) r += m.f(t) * m.M; return r; } };

using AvRef = std::function<void(double t, const Mat& rho, std::vector<double>& out)>;   // NaN = not predicted

struct FreeModel { structure::FreePtr sys; Dyn d; AvRef av; std::vector<bool> top; bool masterOK = true, ex = false, ha = true; std::string name; std::shared_ptr<const void> typed; };

template <int R> struct Model {
  std::string name; structure::QuantumSystemPtr<R> sys; std::array<size_t, R> dims; size_t N = 0; Dyn d; AvRef av;
  bool masterOK = true, ex = false, ha = true;
  std::vector<bool> top;                // basis states at the truncation (where a, a+ of the truncated space do not commute to 1)
};

// pic: -1 as configured, otherwise override for every free element (elements without that picture keep their own)
FreeModel makeFree(const FreeCfg&, int pic = -1);
template <int R> Model<R> build(const Cfg&, int pic = -1);
template <> Model<1> build<1>(const Cfg&, int); template <> Model<2> build<2>(const Cfg&, int); template <> Model<3> build<3>(const Cfg&, int);

// what a scenario may ask for
struct Want { bool master = false, dissipative = false, noTimeDep = false, exactOnly = false, truncSafe = false; };
Cfg drawCfg(int rank, Want w = Want{});
inline bool& thermalDrawn() { static bool t = false; return t; }   // a truncated mode with thermal excitation has been drawn in this run
std::string describe(const Cfg&);
bool hasTimeDep(const Cfg&);

// ---------------------------------------------------------------- helpers shared by the builders
Mat kron(const Mat& a, const Mat& b);
Mat id(int n);
Mat lower(int n);                        // a in the truncated number basis
Mat embed(const std::vector<size_t>& dims, const std::vector<int>& slots, const Mat& op);   // op acts on the listed slots, in that order
Mat ptrace(const std::vector<size_t>& dims, const std::vector<int>& keep, const Mat& rho);
Dyn embed(const std::vector<size_t>& dims, const std::vector<int>& slots, const Dyn& d);
void add(Dyn& a, const Dyn& b);
Mat rndMat(sim::Prng& p, int n, double scale); Mat rndHerm(sim::Prng& p, int n, double scale);
inline QM_Picture picture(int p) { return p == 0 ? QMP_SCH : p == 1 ? QMP_IP : QMP_UIP; }

// ---------------------------------------------------------------- independent reference evolution
Vec expmv(const Mat& K, double dt, const Vec& psi);                    // exp(K dt) psi by scaled Taylor
Vec evolve(const Dyn&, Vec psi, double t0, double t1);                 // between jumps, not normalised
Mat lindblad(const Dyn&, double t, const Mat& rho);
Mat evolveRho(const Dyn&, Mat rho, double t0, double t1);              // not normalised
double scale(const Dyn&);                                              // crude norm of the generator

// ---------------------------------------------------------------- conversions
template <int R> Vec toVec(const blitz::Array<dcomp, R>& a);
template <> inline Vec toVec<1>(const blitz::Array<dcomp, 1>& a) { Vec v(a.extent(0)); for (int i = 0; i < a.extent(0); ++i) v(i) = a(i); return v; }
template <> inline Vec toVec<2>(const blitz::Array<dcomp, 2>& a) { Vec v(a.extent(0) * a.extent(1)); int n = 0; for (int i = 0; i < a.extent(0); ++i) for (int j = 0; j < a.extent(1); ++j) v(n++) = a(i, j); return v; }
template <> inline Vec toVec<3>(const blitz::Array<dcomp, 3>& a) { Vec v(a.extent(0) * a.extent(1) * a.extent(2)); int n = 0; for (int i = 0; i < a.extent(0); ++i) for (int j = 0; j < a.extent(1); ++j) for (int k = 0; k < a.extent(2); ++k) v(n++) = a(i, j, k); return v; }
template <int R> quantumdata::StateVector<R> toState(const std::array<size_t, R>& dims, const Vec& v) {
  typename quantumdata::StateVector<R>::Dimensions d; for (int i = 0; i < R; ++i) d(i) = dims[i];
  quantumdata::StateVector<R> psi(d); int n = 0;
  if constexpr (R == 1) for (size_t i = 0; i < dims[0]; ++i) psi.getArray()(int(i)) = v(n++);
  if constexpr (R == 2) for (size_t i = 0; i < dims[0]; ++i) for (size_t j = 0; j < dims[1]; ++j) psi.getArray()(int(i), int(j)) = v(n++);
  if constexpr (R == 3) for (size_t i = 0; i < dims[0]; ++i) for (size_t j = 0; j < dims[1]; ++j) for (size_t k = 0; k < dims[2]; ++k) psi.getArray()(int(i), int(j), int(k)) = v(n++);
  return psi; }
template <int R> quantumdata::DensityOperator<R> toRho(const std::array<size_t, R>& dims, const Mat& m) {
  typename quantumdata::DensityOperator<R>::Dimensions d; for (int i = 0; i < R; ++i) d(i) = dims[i];
  quantumdata::DensityOperator<R> rho(d); auto mv(rho.matrixView()); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) mv(i, j) = m(i, j); return rho; }

// a random pure state; avoidTop leaves the truncation levels empty; sparse states included
Vec drawState(const std::vector<bool>& top, bool avoidTop);
}
