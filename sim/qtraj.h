// Quantum trajectories under the simulator's control: scripted random numbers, drawn step controllers.
#pragma once
#include "qm.h"
#include "Random.h"
#include "MCWF_Trajectory.h"
#include "Master.h"
#include "ODE_GSL.h"

// ------------------------------------------------------------ the random-number seam: the simulator decides every random number
// Engine number s reads script s; what it holds (the position) is saved and restored with the trajectory.
namespace qt {
struct Scripts { std::vector<std::vector<double>> u; };   // numbers in [0,1); after the end of a script: a hash of the position
inline Scripts& scripts() { static Scripts s; return s; }
}
struct ScriptEngine {
  using result_type = uint64_t; uint64_t s = 0, pos = 0; inline static uint64_t calls = 0;
  explicit ScriptEngine(uint64_t seed = 0, uint64_t stream = 0) : s(seed + stream) {}
  static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~uint64_t(0); }
  uint64_t operator()() { ++calls; auto& v = qt::scripts().u; double u; uint64_t p = pos++; if (s < v.size() && p < v[s].size()) u = v[s][p]; else { uint64_t x = (s * 1000003 + p + 1) * 0x9e3779b97f4a7c15ull; x ^= x >> 31; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 29; return x; } return uint64_t(u * 18446744073709551616.); }
  bool operator==(const ScriptEngine&) const = default;
  template <typename A> void serialize(A& ar, unsigned) { ar & s & pos; }
};
inline std::ostream& operator<<(std::ostream& os, const ScriptEngine& e) { return os << e.s << ' ' << e.pos; }
inline std::istream& operator>>(std::istream& is, ScriptEngine& e) { return is >> e.s >> e.pos; }
namespace cppqedutils::randomutils_seam {}
template <> inline const std::string randomutils::EngineID_v<ScriptEngine> = "ScriptEngine";

namespace qt {
using namespace qm;
template <int R> using SVL = quantumdata::StateVectorLow<R>;
template <int R> using OdeB = cppqedutils::ODE_EngineBoost<SVL<R>>;
template <int R> using OdeBM = cppqedutils::ODE_EngineBoost<quantumdata::DensityOperatorLow<R>>;
template <int R> using MCWF = quantumtrajectory::MCWF_Trajectory<R, OdeB<R>, ScriptEngine>;
template <int R> using Mast = quantumtrajectory::Master<R, OdeBM<R>>;

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
inline std::ostream& nul() { static NullBuf b; static std::ostream o(&b); return o; }

struct Knobs { double dtInit = .05, epsRel = 1e-10, epsAbs = 1e-12, dpLimit = .05, overshoot = 2.; int logLevel = 0; };
inline Knobs drawKnobs() { Knobs k; static const double dt[] = {.05, .01, .4, .002}, dp[] = {.05, .01, .2, .5}, os[] = {1.2, 10., 2., 1.}; k.dtInit = dt[sim::draw(4)]; k.dpLimit = dp[sim::draw(4)]; k.overshoot = os[sim::draw(4)]; k.logLevel = int(sim::draw(3)); return k; }

template <int R> MCWF<R> mcwf(const Model<R>& m, const Vec& psi, const Knobs& k, uint64_t script) {
  auto sv = toState<R>(m.dims, psi); return MCWF<R>(m.sys, std::move(sv), OdeB<R>(k.dtInit, k.logLevel, k.epsRel, k.epsAbs), randomutils::EngineWithParameters<ScriptEngine>{script, 0}, k.dpLimit, k.overshoot, k.logLevel); }
template <int R> Mast<R> master(const Model<R>& m, const Mat& rho, const Knobs& k) { return Mast<R>(m.sys, toRho<R>(m.dims, rho), OdeBM<R>(k.dtInit, k.logLevel, k.epsRel, k.epsAbs), quantumtrajectory::EntanglementMeasuresSwitch{}); }

template <typename T> std::string save(T& t) { std::ostringstream o(std::ios::binary); { cppqedutils::oarchive a(o); t.stateIO(a); } return o.str(); }
template <typename T> void load(T& t, const std::string& s) { std::istringstream i(s, std::ios::binary); cppqedutils::iarchive a(i); t.stateIO(a); }
template <int R> Vec psiOf(const MCWF<R>& t) { return toVec<R>(t.getStateVector().getArray()); }
template <int R> Mat rhoOf(Mast<R>& t) { std::string s = save(t); std::istringstream i(s, std::ios::binary); cppqedutils::iarchive a(i); quantumdata::DensityOperatorLow<R> x; a & x; auto m = blitzplusplus::binaryArray(x); Mat r(m.extent(0), m.extent(1)); for (int p = 0; p < m.extent(0); ++p) for (int q = 0; q < m.extent(1); ++q) r(p, q) = m(p, q); return r; }
template <typename T> std::vector<double> averages(const T& t, int prec = 17) { auto s = t.stream(nul(), prec); auto a = std::get<1>(s); std::vector<double> v; for (int i = 0; i < int(a.size()); ++i) v.push_back(a(i)); return v; }
inline std::vector<double> bits(const Vec& v) { std::vector<double> r; for (int i = 0; i < v.size(); ++i) { r.push_back(v(i).real()); r.push_back(v(i).imag()); } return r; }
inline std::vector<double> bits(const Mat& v) { std::vector<double> r; for (int i = 0; i < v.size(); ++i) { r.push_back(v.data()[i].real()); r.push_back(v.data()[i].imag()); } return r; }
// distance of two normalised states irrespective of the global phase
inline double rayDist(const Vec& a, const Vec& b) { dcomp o = a.dot(b); double n = std::abs(o); return n > 0 ? (b - a * (o / n)).norm() : std::sqrt(a.squaredNorm() + b.squaredNorm()); }
}
