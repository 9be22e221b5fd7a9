// Laws about histories of quantum trajectories made by the framework's own factories with its own random engine: retried steps, ensembles,
// sharing of system objects, pictures and partitions of time, observation, displayed averages, saved states.
#pragma once
#include "qtraj.h"
#include "Evolution_.h"
namespace ql {
using namespace qt; using qt::nul; using qt::NullBuf; using cppqedutils::trajectory::MakeSerializationMetadata;
template <int R> using Single = quantumtrajectory::MCWF_Trajectory<R, OdeB<R>, pcg64>;
// which part of a composite is asked about its entanglement with the rest
template <int R> struct Part { using V = tmptools::V_Empty; static std::vector<int> part() { return {}; } static std::vector<int> rest() { return {}; } };
template <> struct Part<2> { using V = tmptools::Vector<0>; static std::vector<int> part() { return {0}; } static std::vector<int> rest() { return {1}; } };
template <> struct Part<3> { using V = tmptools::Vector<0, 2>; static std::vector<int> part() { return {0, 2}; } static std::vector<int> rest() { return {1}; } };
template <int R> using OdeG = cppqedutils::ODE_EngineGSL<SVL<R>>;
inline std::string g17(double d) { std::ostringstream o; o.precision(12); o << d; return o.str(); }

// parameters, as a script would set them
struct Lab { parameters::Table t; quantumtrajectory::mcwf::Pars<pcg64> p; Lab() : p(t) {} };
struct Set { double epsRel = 1e-6, epsAbs = 1e-12, dpLimit = .01, over = 10.; int log = 1; unsigned long seed = 1001, stream = 1; size_t nTraj = 3, nBins = 0, perBin = 50; int ems = 0; /* entanglement measures displayed */ };
inline void apply(Lab& l, const Set& s) { l.p.epsRel = s.epsRel; l.p.epsAbs = s.epsAbs; l.p.dpLimit = s.dpLimit; l.p.overshootTolerance = s.over; l.p.logLevel = s.log; l.p.seed = s.seed; l.p.prngStream = s.stream; l.p.nTraj = s.nTraj; l.p.nBins = s.nBins; l.p.nJumpsPerBin = s.perBin; }
inline Set drawSet() { Set s; s.epsRel = sim::pick(std::vector<double>{1e-6, 1e-4, 1e-7}); s.dpLimit = sim::pick(std::vector<double>{.2, .05, .01, .4}); s.over = sim::pick(std::vector<double>{1.5, 10., 1., 2.}); if (s.dpLimit * s.over > .9) s.over = 1.2; s.log = int(sim::draw(5)); s.seed = 1 + sim::draw(100000); s.stream = sim::draw(20); if (s.stream == 19) s.stream = sim::draw(1ul << 40); s.nTraj = 1 + sim::draw(4); s.nBins = sim::draw(4); return s; }

// one interface to the three kinds
template <int R> struct Any { virtual ~Any() {} virtual void go(double) = 0; virtual double time() const = 0; virtual double did() const = 0; virtual std::string bytes() = 0; virtual void restore(const std::string&) = 0; virtual std::vector<double> state() = 0; virtual Mat rho() = 0;
  virtual std::vector<double> look(int prec, std::string* text) const = 0; virtual std::string key() const = 0; virtual std::string pars() const = 0; virtual std::string end() const = 0; };
template <typename T> std::string pack(T& t) { auto os = std::make_shared<std::ostringstream>(std::ios::binary); cppqedutils::trajectory::writeViaSStream(t, os); return os->str(); }
template <typename T> void unpack(T& t, const std::string& s) { cppqedutils::trajectory::readViaSStream(t, std::make_shared<std::istringstream>(s, std::ios::binary)); }
template <int R> Mat matOf(const quantumdata::DensityOperator<R>& d) { auto m = blitzplusplus::binaryArray(d.getArray()); Mat r(m.extent(0), m.extent(1)); for (int i = 0; i < m.extent(0); ++i) for (int j = 0; j < m.extent(1); ++j) r(i, j) = m(i, j); return r; }
template <int R, typename T, int KIND> struct AnyOf : Any<R> { T t; AnyOf(T&& x) : t(std::move(x)) {}
  void go(double dT) override { if constexpr (KIND == 2) t.advance(dT, nul()); else t.step(dT, nul()); }
  double time() const override { return t.getTime(); } double did() const override { return t.getDtDid(); }
  std::string bytes() override { return pack(t); } void restore(const std::string& s) override { unpack(t, s); }
  Mat rho() override { if constexpr (KIND == 0) { Vec v = toVec<R>(t.getStateVector().getArray()); return v * v.adjoint(); } else if constexpr (KIND == 1) { std::string s = save(t); std::istringstream i(s, std::ios::binary); cppqedutils::iarchive a(i); quantumdata::DensityOperatorLow<R> x; a & x; quantumdata::DensityOperator<R> d(x, quantumdata::byReference); return matOf<R>(d); } else return matOf<R>(t.averaged()); }
  std::vector<double> state() override { if constexpr (KIND == 0) return bits(toVec<R>(t.getStateVector().getArray())); else return bits(rho()); }
  std::vector<double> look(int prec, std::string* text) const override { std::ostringstream o; auto a = std::get<1>(t.stream(o, prec)); if (text) *text = o.str(); std::vector<double> v; for (int i = 0; i < int(a.size()); ++i) v.push_back(a(i)); return v; }
  std::string key() const override { std::ostringstream o; t.streamKey(o); return o.str(); } std::string pars() const override { std::ostringstream o; t.streamParameters(o); return o.str(); } std::string end() const override { std::ostringstream o; t.logOnEnd(o); return o.str(); } };
template <int R> using Ptr = std::unique_ptr<Any<R>>;
enum Kind { SINGLE, MASTER, ENSEMBLE, SINGLE_GSL };
template <int R> int drawKind() { int k = int(sim::draw(3)); if (R == 1 && k == SINGLE && sim::chance(1, 3)) k = SINGLE_GSL; return k; }
inline const char* kindName(int k) { static const char* n[] = {"single", "Master", "ensemble", "single-GSL"}; return n[k]; }

template <int R> Ptr<R> make(int kind, const Model<R>& m, const Mat& rho0, const Vec& psi0, const Set& s) {
  Lab l; apply(l, s);
  if (kind == SINGLE) { auto t = quantumtrajectory::mcwf::make<OdeB<R>, pcg64>(m.sys, toState<R>(m.dims, psi0), l.p); return std::make_unique<AnyOf<R, decltype(t), 0>>(std::move(t)); }
  if constexpr (R == 1) if (kind == SINGLE_GSL) { auto t = quantumtrajectory::mcwf::make<OdeG<R>, pcg64>(m.sys, toState<R>(m.dims, psi0), l.p); return std::make_unique<AnyOf<R, decltype(t), 0>>(std::move(t)); }
  quantumtrajectory::EntanglementMeasuresSwitch ems(s.ems); using V = typename Part<R>::V;
  if (kind == MASTER) { auto t = quantumtrajectory::master::make<OdeBM<R>, V>(m.sys, toRho<R>(m.dims, rho0), l.p, ems); return std::make_unique<AnyOf<R, decltype(t), 1>>(std::move(t)); }
  auto psi = toState<R>(m.dims, psi0); auto t = quantumtrajectory::mcwf::makeEnsemble<OdeB<R>, pcg64, V>(m.sys, psi, l.p, ems); return std::make_unique<AnyOf<R, decltype(t), 2>>(std::move(t)); }

inline double dist(const std::vector<double>& a, const std::vector<double>& b) { if (a.size() != b.size()) return INFINITY; double s = 0; for (size_t i = 0; i < a.size(); ++i) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s); }
// a system for the scenario: Master needs one it applies to
template <int R> Cfg drawFor(bool master, bool noBichro = true) { Want w; w.master = master; Cfg c = drawCfg(R, w); if (noBichro && c.rank == 1 && c.f[0].kind == F_BICHRO) { c.f[0].kind = F_MODE; c.f[0].kerr = 0; }
  if (master) { Model<R> m = build<R>(c); if (!m.masterOK) for (auto& f : c.f) f.pic = f.kind == F_QBIT && f.par > 0 ? 2 : 0; } return c; }
// thermal modes near their cutoff are not physical: keep what starts there away
template <int R> void initial(const Model<R>& m, Vec& psi, Mat& rho) { psi = drawState(m.top, true); Vec b = drawState(m.top, true); double q = .25 * double(sim::draw(3)); rho = (1 - q) * psi * psi.adjoint() + q * b * b.adjoint(); }
inline double drawStep() { return sim::pick(std::vector<double>{.1, .03, .3, .7, .01}); }

// a photon added to the last level of a truncated mode leaves nothing of the state, and the framework stops with an exception: such a run ends there
inline void guarded(void (*scenario)()) { try { scenario(); } catch (const std::exception& e) { if (!thermalDrawn() || !strstr(e.what(), "Infinite detected")) throw; sim::count("probe:cutoff-reached"); } }

// ---------------------------------------------------------------- P15: looking at a trajectory between any two steps changes nothing
template <int R> void observation() {
  int kind = drawKind<R>(); Cfg c = drawFor<R>(kind == MASTER, false); Model<R> ma = build<R>(c), mb = build<R>(c); Vec psi; Mat rho; initial<R>(ma, psi, rho); Set s = drawSet();
  SIM_EVENT(kindName(kind) << " " << describe(c)); sim::setSummary(std::string(kindName(kind)) + " " + describe(c)); sim::shape(kindName(kind) + describe(c));
  auto a = make<R>(kind, ma, rho, psi, s), b = make<R>(kind, mb, rho, psi, s); unsigned n = 2 + unsigned(sim::draw(6)); int looks = 0;
  for (unsigned i = 0; i < n; ++i) {
    unsigned q = unsigned(sim::draw(4)); std::string what;
    for (unsigned j = 0; j < q; ++j) { ++looks; std::string t1, t2; switch (sim::draw(6)) {
      case 0: { auto v1 = a->look(6, &t1), v2 = a->look(6, &t2); what = "averages"; SIM_CHECK(t1 == t2 && sim::sameBits(v1, v2), "unstable-observation", ma.name << ": looking twice at the averages gives different results"); break; }
      case 1: t1 = a->key(); what = "key"; SIM_CHECK(t1 == a->key(), "unstable-observation", ma.name << ": the key differs when asked twice"); break;
      case 2: t1 = a->pars(); what = "parameters"; SIM_CHECK(t1 == a->pars(), "unstable-observation", ma.name << ": the parameters differ when asked twice"); break;
      case 3: t1 = a->end(); what = "summary"; break;
      case 4: t1 = a->bytes(); what = "saved state"; SIM_CHECK(t1 == a->bytes(), "unstable-observation", ma.name << ": saving twice gives different bytes"); break;
      default: a->look(17, nullptr); what = "averages"; } sim::count("probe:look:" + what); }
    double dT = drawStep(); a->go(dT); b->go(dT); sim::addSimTime(a->did()); SIM_EVENT("step " << i << " looks " << q << " t=" << a->time()); sim::eventBits("s", a->state());
    SIM_CHECK(a->bytes() == b->bytes(), "observation-perturbs", ma.name << " (" << kindName(kind) << "): after " << looks << " observations (last: " << what << ") the state at t=" << g17(a->time()) << " differs from that of the unobserved twin (t=" << g17(b->time()) << ") by " << dist(a->state(), b->state()));
  }
  if (looks) sim::nontrivial();
}

// ---------------------------------------------------------------- P12: trajectories that share a system object do not influence each other
template <int R> void sharing() {
  bool anyMaster = sim::chance(1, 3); Cfg c = drawFor<R>(anyMaster); Model<R> shared = build<R>(c); unsigned n = 2 + unsigned(sim::draw(2)); std::vector<Ptr<R>> in, alone; std::vector<Model<R>> own; std::vector<int> kinds; bool exact = !shared.ex;
  SIM_EVENT(describe(c)); sim::setSummary(describe(c)); sim::shape(describe(c));
  for (unsigned i = 0; i < n; ++i) { Vec psi; Mat rho; initial<R>(shared, psi, rho); Set s = drawSet(); int k = anyMaster && sim::draw(2) ? MASTER : int(sim::draw(3)) == 2 ? ENSEMBLE : R == 1 && sim::chance(1, 4) ? SINGLE_GSL : SINGLE; kinds.push_back(k); own.push_back(build<R>(c)); in.push_back(make<R>(k, shared, rho, psi, s)); alone.push_back(make<R>(k, own.back(), rho, psi, s)); }
  unsigned steps = 3 + unsigned(sim::draw(10)); std::vector<unsigned> cnt(n, 0); int last = -1, switches = 0;
  for (unsigned q = 0; q < steps; ++q) { unsigned i = unsigned(sim::draw(n)); if (last != int(i)) { ++switches; last = int(i); } double dT = drawStep();
    if (sim::chance(1, 5)) in[i]->look(10, nullptr); in[i]->go(dT); alone[i]->go(dT); ++cnt[i]; SIM_EVENT("trajectory " << i << " t=" << in[i]->time()); sim::eventBits("s", in[i]->state()); sim::addSimTime(in[i]->did());
    std::string where = shared.name + ", " + kindName(kinds[i]) + " No. " + std::to_string(i) + " of " + std::to_string(n) + " sharing the system, t=" + g17(in[i]->time()) + ": ";
    if (exact) SIM_CHECK(in[i]->bytes() == alone[i]->bytes(), "cross-talk", where << "its state differs from that of the same trajectory with a system of its own by " << dist(in[i]->state(), alone[i]->state()) << ", time by " << in[i]->time() - alone[i]->time());
    else { double d = dist(in[i]->state(), alone[i]->state()), dt = std::fabs(in[i]->time() - alone[i]->time()); SIM_CHECK(dt < 1e-8 && d < 1e-6, "cross-talk", where << "its state differs from that of the same trajectory with a system of its own by " << d << ", time by " << dt); } }
  sim::count("probe:switches", switches); if (switches > 2) sim::nontrivial(); sim::shape(std::to_string(switches) + "/" + std::to_string(steps)); for (int k : kinds) sim::shape(kindName(k));
}

// ---------------------------------------------------------------- P11: an ensemble is the mean of independent trajectories, each with its own random stream
template <int R> void ensemble() {
  Cfg c = drawFor<R>(false); Model<R> me = build<R>(c); Set s = drawSet(); s.nTraj = 1 + sim::draw(5); Vec psi; Mat rho; initial<R>(me, psi, rho); bool exact = !me.ex;
  SIM_EVENT(describe(c) << " members " << s.nTraj); sim::setSummary(describe(c) + " members " + std::to_string(s.nTraj)); sim::shape(describe(c) + std::to_string(s.nTraj));
  auto e = make<R>(ENSEMBLE, me, rho, psi, s); std::vector<Model<R>> own; std::vector<Ptr<R>> solo; Set q = s; q.log = s.log > 0 ? 1 : s.log;
  for (size_t i = 0; i < s.nTraj; ++i) { own.push_back(build<R>(c)); q.stream = s.stream + i; solo.push_back(make<R>(SINGLE, own.back(), rho, psi, q)); }
  double t = 0; unsigned n = 1 + unsigned(sim::draw(4)); bool diverged = false;
  for (unsigned i = 0; i < n; ++i) { double dT = drawStep(); e->go(dT); bool tiny = false; for (auto& x : solo) { const double end = x->time() + dT; for (double d; (d = end - x->time()) > 0; ) x->go(d); tiny |= x->did() < 1e-9; /* a remainder of rounding */ } t += dT; sim::addSimTime(dT * s.nTraj);
    Mat mean = Mat::Zero(me.N, me.N); double did = 0; for (auto& x : solo) { mean += x->rho(); did += x->did(); } mean /= double(s.nTraj); did /= s.nTraj; Mat got = e->rho(); std::string where = me.name + ", ensemble of " + std::to_string(s.nTraj) + " at t=" + g17(e->time()) + ": ";
    SIM_EVENT("t=" << e->time()); sim::eventBits("rho", bits(got)); for (size_t k = 1; k < solo.size(); ++k) diverged |= dist(solo[k]->state(), solo[0]->state()) > 1e-6;
    SIM_CHECK(std::fabs(e->time() - t) <= 1e-12 * (1 + t), "ensemble-time", where << "expected at " << t);
    if (!exact && std::fabs(e->did() - did) > 1e-6) { sim::count("probe:remainder"); return; } /* the last bits decided about a remainder of rounding, which takes a random number */
    double tol = exact ? 1e-13 : 1e-6; SIM_CHECK((got - mean).norm() < tol * (1 + mean.norm()), "ensemble-average", where << "the averaged density operator deviates from the mean of the independent trajectories by " << (got - mean).norm());
    SIM_CHECK(std::fabs(got.trace().real() - 1.) < 1e-9 || mean.trace().real() < 1 - 1e-9, "ensemble-trace", where << "the trace is " << got.trace().real());
    if (!tiny && exact /* otherwise the last bits decide about a remainder */) SIM_CHECK(std::fabs(e->did() - did) < 1e-13, "ensemble-step", where << "the reported step length " << e->did() << " is not the mean of those of the members, " << did);
    auto av = e->look(17, nullptr); std::vector<double> ref; me.av(t, got, ref); SIM_CHECK(av.size() == ref.size(), "ensemble-columns", where << av.size() << " averages instead of " << ref.size());
    for (size_t k = 0; k < av.size(); ++k) if (!std::isnan(ref[k])) SIM_CHECK(std::fabs(av[k] - ref[k]) < 1e-9 * (1 + std::fabs(ref[k])), "ensemble-averages", where << "average No. " << k << " is " << av[k] << " instead of " << ref[k]); }
  if (s.nTraj > 1) sim::nontrivial(); if (diverged) sim::count("probe:members-diverged");
}

// ---------------------------------------------------------------- P13: the same physics in every picture, however the time is partitioned
template <int R> void pictures() {
  bool ms = sim::chance(1, 3); Cfg c = drawFor<R>(ms); size_t total = 1; for (int i = 0; i < R; ++i) total *= size_t(c.f[i].dim); if (total > 64) ms = false; if (!ms) for (auto& f : c.f) if (f.kind != F_DENSE) f.nTh = 0; // at the cutoff, pictures of a thermal mode differ
  Vec psi; Mat rho; Model<R> m0 = build<R>(c); initial<R>(m0, psi, rho); double T = sim::pick(std::vector<double>{.4, .1, 1., 2.5}); Knobs k = drawKnobs(); k.epsRel = 1e-9; k.dpLimit = .05; k.overshoot = 10; scripts().u.assign(1, std::vector<double>(20000, .99999999)); SIM_EVENT(describe(c) << " T=" << T); sim::setSummary(describe(c)); sim::shape(describe(c));
  Vec want = qm::evolve(m0.d, psi, 0, T); want /= want.norm(); Mat wantRho; if (ms) { wantRho = evolveRho(m0.d, rho, 0, T); wantRho /= wantRho.trace().real(); } double tol = 3e-6;
  double top = 0; if (ms) for (auto& f : c.f) if ((f.kind == F_MODE) && f.nTh > 0) top = 1;
  for (int v = 0; v < 3; ++v) { int pic = v == 0 ? -1 : int(sim::draw(3)); Cfg cc = c; if (pic >= 0) for (auto& f : cc.f) { if (ms && (pic == 1 || (f.kind == F_QBIT && f.par > 0))) f.pic = f.kind == F_QBIT && f.par > 0 ? 2 : 0; else f.pic = pic; if (f.kind == F_SPIN && (f.theta != 0 || f.phi != 0)) f.pic = 0; if (f.kind == F_DENSE) f.pic = c.f[&f - cc.f].pic; }
    bool ex = false, dn = false; for (int i = 0; i < R; ++i) { ex |= cc.f[i].pic != 0; dn |= cc.f[i].kind == F_DENSE; } if (R > 1 && ex) for (auto& f : cc.f) if (f.kind == F_DENSE) f.twoS |= 1;
    Model<R> m = build<R>(cc); if (ms && !m.masterOK) continue; std::string part; double t = 0; unsigned pieces = 1 + unsigned(sim::draw(4)); std::vector<double> cut; for (unsigned i = 1; i < pieces; ++i) cut.push_back(T * sim::real(.01, .99)); std::sort(cut.begin(), cut.end()); cut.push_back(T);
    std::string how = m.name + (pic < 0 ? "" : pic == 0 ? ", all Schroedinger" : pic == 1 ? ", interaction pictures" : ", unitary interaction pictures") + ", " + std::to_string(pieces) + " pieces up to T=" + g17(T) + ": ";
    if (!ms) { auto tr = mcwf<R>(m, psi, k, 0); for (double e : cut) { cppqedutils::advance(tr, e - tr.getTime(), nul()); if (sim::draw(3) == 2) { std::string sv = save(tr); auto x = mcwf<R>(m, psi, k, 0); load(x, sv); x.step(.01, nul()); } } sim::addSimTime(T);
      Vec got = psiOf<R>(tr); SIM_EVENT("variant " << v << " pic " << pic << " pieces " << pieces); sim::eventBits("psi", bits(got)); SIM_CHECK(std::fabs(tr.getTime() - T) < 1e-12, "time", how << "arrived at " << tr.getTime());
      SIM_CHECK(rayDist(want, got) < tol, "picture-dependence", how << "the state deviates by " << rayDist(want, got)); }
    else { auto tr = master<R>(m, rho, k); for (double e : cut) cppqedutils::advance(tr, e - tr.getTime(), nul()); sim::addSimTime(T); Mat got = rhoOf<R>(tr); SIM_EVENT("variant " << v << " pic " << pic << " pieces " << pieces); sim::eventBits("rho", bits(got));
      if (!top) SIM_CHECK((got - wantRho).norm() < tol, "picture-dependence", how << "the density operator deviates by " << (got - wantRho).norm()); } }
  sim::nontrivial();
}

// ---------------------------------------------------------------- P16: displayed averages are those of the current state
// negativity, mutual information and purity of the part, from their definitions
inline double entropyOf(const Mat& r) { Eigen::SelfAdjointEigenSolver<Mat> es(r, Eigen::EigenvaluesOnly); double s = 0; for (int i = 0; i < r.rows(); ++i) { double e = es.eigenvalues()(i); if (e > 0) s -= e * std::log(e); } return s; }
template <int R> void entanglement(const Model<R>& m, const Mat& rho, int ems, std::vector<double>& o) { if (!ems) return; std::vector<size_t> dv(m.dims.begin(), m.dims.end()); auto A = Part<R>::part(), B = Part<R>::rest(); size_t N = m.N;
  if (ems & 1) { Mat pt(N, N); std::vector<size_t> ix(R), jx(R); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { size_t x = i, y = j; for (int k = R - 1; k >= 0; --k) { ix[k] = x % dv[k]; x /= dv[k]; jx[k] = y % dv[k]; y /= dv[k]; } for (int k : A) std::swap(ix[k], jx[k]); size_t p = 0, q = 0; for (int k = 0; k < R; ++k) { p = p * dv[k] + ix[k]; q = q * dv[k] + jx[k]; } pt(p, q) = rho(i, j); }
    Eigen::SelfAdjointEigenSolver<Mat> es(Mat((pt + pt.adjoint()) / 2.), Eigen::EigenvaluesOnly); double s = 0; for (size_t i = 0; i < N; ++i) s += std::fabs(es.eigenvalues()(i)); o.push_back((s - 1) / 2); }
  Mat a = ptrace(dv, A, rho); if (ems & 2) o.push_back(entropyOf(a) + entropyOf(ptrace(dv, B, rho)) - entropyOf(rho)); if (ems & 4) o.push_back((a * a).trace().real()); }
template <int R> void display() {
  int kind = drawKind<R>(); Cfg c = drawFor<R>(kind == MASTER, false); Model<R> m = build<R>(c); Vec psi; Mat rho; initial<R>(m, psi, rho); Set s = drawSet(); if (R > 1 && (kind == MASTER || kind == ENSEMBLE)) s.ems = int(sim::draw(8)); auto a = make<R>(kind, m, rho, psi, s); SIM_EVENT(kindName(kind) << " " << describe(c)); sim::setSummary(std::string(kindName(kind)) + " " + describe(c)); sim::shape(kindName(kind) + describe(c));
  unsigned n = 1 + unsigned(sim::draw(4));
  for (unsigned i = 0; i <= n; ++i) { if (i) { a->go(drawStep()); sim::addSimTime(a->did()); }
    Mat r = a->rho(); int prec = 3 + int(sim::draw(15)); std::string text; auto av = a->look(prec, &text); std::vector<double> ref; m.av(a->time(), r, ref); size_t plain = ref.size(); entanglement<R>(m, r, s.ems, ref); std::string where = m.name + " (" + kindName(kind) + ") at t=" + g17(a->time()) + ": "; sim::eventBits("av", av);
    SIM_CHECK(av.size() == ref.size(), "columns", where << av.size() << " averages instead of " << ref.size());
    std::istringstream is(text); std::vector<double> shown; std::string tok; while (is >> tok) shown.push_back(strtod(tok.c_str(), nullptr)); SIM_CHECK(shown.size() == av.size(), "columns", where << shown.size() << " displayed numbers for " << av.size() << " averages");
    for (size_t k = 0; k < av.size(); ++k) { if (!std::isnan(ref[k])) SIM_CHECK(std::fabs(av[k] - ref[k]) < (k < plain ? 1e-9 : 1e-6) * (1 + std::fabs(ref[k])), "average", where << "average No. " << k << " is " << av[k] << " while that of the state is " << ref[k]);
      SIM_CHECK(std::fabs(shown[k] - av[k]) <= 6 * std::pow(10., -prec) * std::fabs(av[k]) + 1e-300, "displayed-digits", where << "average No. " << k << " = " << av[k] << " is displayed as " << shown[k] << " at precision " << prec); }
    // the key numbers the columns consecutively, starting with 3
    std::istringstream ks(a->key()); std::string line; std::vector<int> nums; while (std::getline(ks, line)) { size_t p = line.find_first_not_of(" \t"); if (p != std::string::npos && isdigit(line[p])) { size_t e = p; while (e < line.size() && isdigit(line[e])) ++e; if (e < line.size() && line[e] == '.') nums.push_back(atoi(line.c_str() + p)); } }
    SIM_CHECK(nums.size() == av.size(), "key", where << "the key explains " << nums.size() << " columns out of " << av.size()); for (size_t k = 0; k < nums.size(); ++k) SIM_CHECK(nums[k] == int(k) + 3, "key", where << "entry No. " << k << " of the key has number " << nums[k]); }
  sim::nontrivial();
}

// ---------------------------------------------------------------- P09: attempts that were taken back leave no trace
// a saved state with another next step to try; empty if it cannot be told where that is in the archive
inline std::string withDtTry(const std::string& saved, double did, double tried, double next) {
  char a[8], b[8], n[8]; memcpy(a, &did, 8); memcpy(b, &tried, 8); memcpy(n, &next, 8); std::string pat = std::string(a, 8) + std::string(b, 8); size_t p = saved.rfind(pat), at;
  if (p != std::string::npos) at = p + 8; else { at = saved.rfind(std::string(b, 8)); if (at == std::string::npos || saved.find(std::string(b, 8)) != at) return ""; }
  std::string r = saved; r.replace(at, 8, n, 8); return r; }
template <int R> void retries() {
  Want w; Cfg c = drawCfg(R, w); if (c.rank == 1 && c.f[0].kind == F_BICHRO) c.f[0].kind = F_MODE, c.f[0].kerr = 0; Model<R> m = build<R>(c), m2 = build<R>(c); Knobs k = drawKnobs(); k.epsRel = sim::pick(std::vector<double>{1e-7, 1e-4, 1e-9}); k.overshoot = sim::pick(std::vector<double>{1.2, 2., 1.}); if (k.dpLimit * k.overshoot > .9) k.overshoot = 1.1; Vec psi = drawState(m.top, true);
  SIM_EVENT(describe(c)); sim::setSummary(describe(c)); sim::shape(describe(c)); scripts().u.assign(1, std::vector<double>(400, .9999999)); auto& us = scripts().u[0];
  auto tr = std::make_unique<MCWF<R>>(mcwf<R>(m, psi, k, 0)); unsigned n = 1 + unsigned(sim::draw(4)); bool lossy = !m.d.J.empty(), retried = false;
  for (unsigned s = 0; s < n; ++s) {
    double t0 = tr->getTime(), big = sim::pick(std::vector<double>{.5, 2., .1, 8.}), deltaT = sim::pick(std::vector<double>{10., 1., .3}), u = sim::draw(2) ? sim::real(0, 1) * k.dpLimit : sim::real(0, .999); std::vector<double> next; for (int i = 0; i < 6; ++i) next.push_back(sim::real(0, 1));
    std::string saved = save(*tr), first = withDtTry(saved, tr->getDtDid(), tr->getDtTry(), big); if (first.empty() && s) { sim::count("probe:unpatchable"); break; }
    if (first.empty()) { Knobs kb = k; kb.dtInit = big; first = saved; }
    bool inPlace = sim::chance(1, 4); if (!inPlace) { tr = std::make_unique<MCWF<R>>(mcwf<R>(m, psi, k, 0)); load(*tr, first); }
    double tried = std::min(tr->getDtTry(), deltaT); std::string before = save(*tr); double did0 = tr->getDtDid(), try0 = tr->getDtTry();
    // the random numbers of this step and the next ones, wherever the engine stands
    us.assign(4000, 0.); for (size_t i = 0; i < us.size(); ++i) us[i] = next[i % 6]; uint64_t pos0 = ScriptEngine::calls; { auto z = mcwf<R>(m2, psi, k, 0); load(z, before); std::vector<double> keep = us; for (size_t i = 0; i < us.size(); ++i) us[i] = double(i) / 4096; double x = z.sampleRandom(); pos0 = uint64_t(x * 4096 + .5); us = keep; }
    if (pos0 < us.size()) us[pos0] = u;
    uint64_t c0 = ScriptEngine::calls; tr->step(deltaT, nul()); uint64_t ca = ScriptEngine::calls - c0; double dt = tr->getDtDid();
    auto y = std::make_unique<MCWF<R>>(mcwf<R>(m2, psi, k, 0)); std::string plain = withDtTry(before, did0, try0, dt); if (plain.empty()) { sim::count("probe:unpatchable"); break; } load(*y, plain);
    c0 = ScriptEngine::calls; y->step(deltaT, nul()); uint64_t cb = ScriptEngine::calls - c0; sim::addSimTime(dt); SIM_EVENT("step " << s << " first attempt " << tried << " dt=" << dt << " u=" << u); Vec a = psiOf<R>(*tr), b = psiOf<R>(*y); sim::eventBits("psi", bits(a));
    if (dt < .999 * tried) { retried = true; sim::count("probe:retried"); }
    std::string where = m.name + " step " + std::to_string(s) + " t=" + g17(t0) + " first attempt " + g17(tried) + " dt=" + g17(dt) + ": ";
    SIM_CHECK(ca == (lossy ? 1 : 0), "random-consumption", where << ca << " random numbers were used in one step"); SIM_CHECK(cb == ca, "random-consumption", where << "a step without retries uses " << cb << " random numbers, with retries " << ca);
    SIM_CHECK(std::fabs(tr->getTime() - t0 - dt) < 1e-12 * (1 + t0), "time", where << "the time has become " << tr->getTime());
    if (y->getDtDid() >= dt * (1 - 1e-9)) { // the accepted length alone is accepted at once
      double d = (a - b).norm(); SIM_CHECK(d < 1e-8, "trace-of-retries", where << "the state differs from that of the same step without retries by " << d);
      SIM_CHECK(tr->getLogger().getTrajectory().size() == y->getLogger().getTrajectory().size(), "trace-of-retries", where << "the records of jumps differ"); sim::count("probe:compared");
      // and so do the steps after it
      for (int q = 0; q < 2; ++q) { double d2 = .4 * std::min({tr->getDtTry(), y->getDtTry(), 1.}); if (!(d2 > 1e-9)) break; tr->step(d2, nul()); y->step(d2, nul()); if (std::fabs(tr->getDtDid() - y->getDtDid()) > 1e-9) break; double e = (psiOf<R>(*tr) - psiOf<R>(*y)).norm(); sim::count("probe:compared-later"); SIM_CHECK(e < 1e-7, "trace-of-retries", where << "step No. " << q + 1 << " after it differs by " << e << ", time by " << tr->getTime() - y->getTime()); } }
  }
  if (retried) sim::nontrivial();
}

// ---------------------------------------------------------------- P01 for quantum trajectories
template <int R> void resume() {
  int kind = drawKind<R>(); Cfg c = drawFor<R>(kind == MASTER, false); Model<R> ma = build<R>(c); Vec psi; Mat rho; initial<R>(ma, psi, rho); Set s = drawSet(); bool exact = !ma.ex; SIM_EVENT(kindName(kind) << " " << describe(c)); sim::setSummary(std::string(kindName(kind)) + " " + describe(c)); sim::shape(kindName(kind) + describe(c));
  auto a = make<R>(kind, ma, rho, psi, s); std::vector<Model<R>> keep; Ptr<R> b; keep.reserve(64); keep.push_back(build<R>(c)); b = make<R>(kind, keep.back(), rho, psi, s); unsigned n = 2 + unsigned(sim::draw(8)); int cuts = 0;
  for (unsigned i = 0; i < n; ++i) {
    if (sim::chance(1, 2)) { std::string sv = b->bytes(); keep.push_back(build<R>(c)); Set s2 = s; if (sim::draw(2)) { s2.seed += 17; s2.stream += 3; } Vec p2 = psi; Mat r2 = rho; if (sim::draw(2)) initial<R>(ma, p2, r2); b = make<R>(kind, keep.back(), r2, p2, s2); if (sim::chance(1, 4)) b->go(.05); b->restore(sv); ++cuts; sim::count("fault:restart");
      if (exact) SIM_CHECK(b->bytes() == sv, "state-roundtrip", ma.name << " (" << kindName(kind) << "): what is saved right after loading differs from what was loaded"); }
    double dT = drawStep(); a->go(dT); b->go(dT); SIM_EVENT("t=" << a->time()); sim::eventBits("s", a->state()); sim::addSimTime(a->did());
    std::string where = ma.name + " (" + kindName(kind) + ") at t=" + g17(a->time()) + " after " + std::to_string(cuts) + " restarts: "; double d = dist(a->state(), b->state()), dt = std::fabs(a->time() - b->time());
    if (exact) SIM_CHECK(a->bytes() == b->bytes(), "resume-differs", where << "the state differs from the uninterrupted one by " << d << ", time by " << dt);
    else SIM_CHECK(d < 1e-6 && dt < 1e-8, "resume-differs", where << "the state differs from the uninterrupted one by " << d << ", time by " << dt); }
  if (cuts) sim::nontrivial();
}

// ---------------------------------------------------------------- P03 for quantum trajectories: states of another kind or size are refused
struct Offer { int rank = 0, kind = 0; std::vector<size_t> dims; std::string bytes, what; size_t nTraj = 0; bool arrayOnly = false; std::vector<double> state; };
template <typename A> std::string arrayBytes(A a, int rank, double t) { std::ostringstream o(std::ios::binary); { cppqedutils::oarchive ar(o); ar & cppqedutils::trajectory::SerializationMetadata{"CArray", cppqedutils::trajectory::SerializationMetadata::ARRAY_ONLY, rank} & a & t; } std::string b = o.str(); return std::to_string(b.size()) + b; }
template <int R> Offer offer() { // a saved state, or only an array as another program would supply it
  Offer o; o.rank = R; o.kind = int(sim::draw(3)); Cfg c = drawFor<R>(o.kind == MASTER); Model<R> m = build<R>(c); Vec p; Mat r; initial<R>(m, p, r); Set s = drawSet(); o.dims.assign(m.dims.begin(), m.dims.end()); o.nTraj = s.nTraj; o.what = std::string(kindName(o.kind)) + " " + describe(c);
  if (o.kind != ENSEMBLE && sim::chance(1, 4)) { o.arrayOnly = true; o.what = "array of " + o.what; if (o.kind == MASTER) { o.bytes = arrayBytes(toRho<R>(m.dims, r).getArray(), 2 * R, 1.); o.state = bits(r); } else { o.bytes = arrayBytes(toState<R>(m.dims, p).getArray(), R, 1.); o.state = bits(p); } return o; }
  auto a = make<R>(o.kind, m, r, p, s); a->go(.05); o.bytes = a->bytes(); if (o.kind != ENSEMBLE) o.state = a->state(); return o; }
Offer offer1(); Offer offer2(); Offer offer3();
template <int R> void foreign() {
  int r1 = sim::chance(1, 2) ? R : 1 + int(sim::draw(3)); Offer o = r1 == 1 ? offer1() : r1 == 2 ? offer2() : offer3();
  int k2 = sim::chance(1, 2) ? o.kind : int(sim::draw(3)); Cfg c2 = drawFor<R>(k2 == MASTER); Model<R> m2 = build<R>(c2); Vec p2; Mat r2; initial<R>(m2, p2, r2); Set s2 = drawSet(); if (o.kind == ENSEMBLE && k2 == ENSEMBLE) s2.nTraj = o.nTraj;
  std::vector<size_t> have = o.dims, need(m2.dims.begin(), m2.dims.end()); auto twice = [](std::vector<size_t>& v) { auto w = v; v.insert(v.end(), w.begin(), w.end()); }; if (o.kind == MASTER) twice(have); if (k2 == MASTER) twice(need); /* an array alone does not tell what it is the array of */
  bool same = o.arrayOnly ? k2 != ENSEMBLE && have == need : o.kind == k2 && have == need; SIM_EVENT(o.what << " -> " << kindName(k2) << " " << describe(c2)); sim::setSummary(o.what + " -> " + kindName(k2)); sim::shape(o.what + kindName(k2) + describe(c2)); if (r1 != R) sim::count("probe:other-rank"); if (o.arrayOnly) sim::count("probe:array-only");
  auto b = make<R>(k2, m2, r2, p2, s2); bool threw = false; std::string what; try { b->restore(o.bytes); } catch (const std::exception& e) { threw = true; what = e.what(); } SIM_EVENT("threw " << threw << " " << what);
  if (same) { SIM_CHECK(!threw, "own-state-refused", m2.name << ": a state of the same kind and size is refused: " << what); if (o.kind != ENSEMBLE && o.kind == k2) SIM_CHECK(dist(o.state, b->state()) == 0, "loaded-state", m2.name << ": the loaded state differs from the saved one"); }
  else { SIM_CHECK(threw, "foreign-state-accepted", "a state of " << o.what << " is accepted by " << kindName(k2) << " " << m2.name << " of other " << (o.rank != R ? "rank" : o.kind == k2 ? "dimensions" : "kind")); sim::nontrivial(); sim::count("fault:foreign-state"); }
}
inline bool topSlackless(const Cfg& c) { for (int i = 0; i < c.rank; ++i) if ((c.f[i].kind == F_MODE || c.f[i].kind == F_BICHRO || c.f[i].kind == F_HOMO) && c.f[i].nTh > 0) return false; return true; }
inline bool normKnown(const Cfg& c) { for (int i = 0; i < c.rank; ++i) if (c.f[i].kind == F_SPIN && c.f[i].kappa > 0) return false; return topSlackless(c); }   // the decay of a spin is defined up to a constant
// ---------------------------------------------------------------- P17: what is logged is what happened
inline double after(const std::string& text, const std::string& label, size_t* from = nullptr) { size_t p = text.find(label, from ? *from : 0); if (p == std::string::npos) return NAN; p += label.size(); if (from) *from = p; return strtod(text.c_str() + p, nullptr); }
inline unsigned occurrences(const std::string& text, const std::string& what) { unsigned n = 0; for (size_t p = 0; (p = text.find(what, p)) != std::string::npos; p += what.size()) ++n; return n; }
struct Summary { double steps, over, overMax, back, backMax, norm, ode, failed, rhs; std::vector<std::pair<double, int>> jumps; bool mcwf = false, odePart = false; };
inline Summary summary(const std::string& text) { Summary r{}; r.mcwf = text.find("Total number of MCWF steps: ") != std::string::npos; r.odePart = text.find("Total number of ODE steps: ") != std::string::npos;
  r.ode = after(text, "Total number of ODE steps: "); r.failed = after(text, "Number of failed ODE steps: "); r.rhs = after(text, "Number of calls to function calculating RHS for ODE: "); r.steps = after(text, "Total number of MCWF steps: ");
  size_t p = 0; r.over = after(text, "dpLimit overshot: ", &p); r.overMax = after(text, "maximal overshoot: ", &p); p = 0; r.back = after(text, "dpTolerance overshot: ", &p); r.backMax = after(text, "maximal overshoot: ", &p); r.norm = after(text, "Maximal deviation of norm from 1: ");
  p = text.find("MCWF Trajectory:\n"); if (p != std::string::npos) { std::istringstream is(text.substr(p + 17)); double t; int n; while (is >> t >> n) r.jumps.push_back({t, n}); } return r; }
template <typename T> std::string endText(const T& t) { std::ostringstream o; o.precision(17); t.logOnEnd(o); return o.str(); }

template <int R> void logSingle() {
  Cfg c = drawCfg(R); if (c.rank == 1 && c.f[0].kind == F_BICHRO) { c.f[0].kind = F_MODE; c.f[0].kerr = 0; } Model<R> m = build<R>(c); Knobs k = drawKnobs(); k.epsRel = sim::pick(std::vector<double>{1e-8, 1e-5, 1e-10}); k.logLevel = int(sim::draw(5)); if (k.dpLimit * k.overshoot > .9) k.overshoot = 1.1; if (sim::draw(2)) k.dtInit *= 10; Vec psi = drawState(m.top, true);
  SIM_EVENT(describe(c) << " logLevel " << k.logLevel); sim::setSummary(describe(c)); sim::shape(describe(c) + std::to_string(k.logLevel)); scripts().u.assign(1, {}); auto& us = scripts().u[0]; us.assign(64, 0.); for (auto& u : us) u = sim::draw(3) ? sim::real(0, 1) : sim::real(0, 1) * k.dpLimit;
  Knobs kq = k; kq.logLevel = 0; auto tr = std::make_unique<MCWF<R>>(mcwf<R>(m, psi, k, 0)); Model<R> m2 = build<R>(c); auto quiet = mcwf<R>(m2, psi, kq, 0); bool lossy = !m.d.J.empty(), ha; { std::ostringstream o; tr->streamParameters(o); ha = o.str().find("Hamiltonian evolution") != std::string::npos; } std::string log; unsigned n = 1 + unsigned(sim::draw(8)), restarts = 0; double dev = 0, over0 = 0; std::vector<std::pair<double, int>> jumps; if (k.logLevel) { Summary x = summary(endText(*tr)); over0 = x.over; SIM_CHECK(x.steps == 0 && x.jumps.empty() && x.over <= 1 && x.back == 0 && x.ode == 0 && x.rhs == 0, "summary", m.name << ": something is reported to have happened before the first step"); } /* the first time step may have been reduced right at the beginning */
  for (unsigned s = 0; s < n; ++s) {
    if (sim::chance(1, 4)) { std::string sv = save(*tr); tr = std::make_unique<MCWF<R>>(mcwf<R>(m, psi, k, 0)); if (sim::draw(2)) { us.push_back(.5); tr->step(.02, nul()); } load(*tr, sv); ++restarts; sim::count("fault:restart"); }
    Vec before = psiOf<R>(*tr); double t0 = tr->getTime(); double dT = drawStep() * (sim::draw(3) ? 1 : 5); std::ostringstream o; o.precision(17); tr->step(dT, o); quiet.step(dT, nul()); double t = tr->getTime(); sim::addSimTime(t - t0); log += o.str(); Vec free = evolve(m.d, before, t0, t); dev = std::max(dev, std::fabs(1 - free.norm())); free /= free.norm();
    std::string where = m.name + " step " + std::to_string(s) + " t=" + g17(t0) + ", log level " + std::to_string(k.logLevel) + ": "; SIM_EVENT("step " << s << " t=" << t); sim::eventBits("psi", bits(psiOf<R>(*tr)));
    if (!m.ex || !restarts) SIM_CHECK(psiOf<R>(*tr) == psiOf<R>(quiet) && tr->getTime() == quiet.getTime(), "log-level-matters", where << "without log the state is another one, by " << (psiOf<R>(*tr) - psiOf<R>(quiet)).norm()); else SIM_CHECK(rayDist(psiOf<R>(*tr), psiOf<R>(quiet)) < 1e-6, "log-level-matters", where << "without log the state is another one");
    // a jump, told from the state
    Vec now = psiOf<R>(*tr); now /= now.norm(); const double near = 1e-5 + 1e3 * k.epsRel; bool stayed = rayDist(free, now) < near; double same = 9, other = 9; int which = -1; for (size_t q = 0; q < m.d.J.size(); ++q) { Vec v = m.d.J[q].at(t) * free; if (v.norm() < 1e-7) continue; v /= v.norm(); double d = rayDist(v, now); if (d < same) { other = same; same = d; which = int(q); } else other = std::min(other, d); if (rayDist(v, free) < 1e-2 + 3 * near) stayed = false, same = 9, other = 0; /* this jump cannot be told from none */ if (other == 0) break; }
    const auto& rec = tr->getLogger().getTrajectory(); size_t had = jumps.size();
    if (other != 0 && stayed) SIM_CHECK(rec.size() == had, "jump-logged", where << "no jump happened but the record of jumps grew from " << had << " to " << rec.size());
    if (other != 0 && !stayed && topSlackless(c)) { SIM_CHECK(rec.size() == had + 1, "jump-logged", where << "a jump happened but the record of jumps has " << rec.size() << " entries after " << had); if (other > 1e-2 && same < 1e-3) SIM_CHECK(int(rec.back().second) == which, "jump-logged", where << "jump No. " << which << " is recorded as No. " << rec.back().second); sim::count("probe:jump"); }
    SIM_CHECK(rec.size() == had || rec.size() == had + 1, "jump-logged", where << "the record of jumps grew from " << had << " to " << rec.size());
    if (rec.size() > had) { jumps.push_back({rec.back().first, int(rec.back().second)}); SIM_CHECK(rec.back().first == t, "jump-logged", where << "jump at " << t << " recorded at " << rec.back().first); }
    // what was written during the step
    std::string txt = o.str(); SIM_CHECK(k.logLevel > 1 || txt.empty(), "log-output", where << "output during the step: " << txt); unsigned jl = occurrences(txt, "Jump No. "); SIM_CHECK(jl == (k.logLevel > 1 ? rec.size() - had : 0), "log-output", where << jl << " jumps reported");
    if (jl) { size_t p = 0; int no = int(after(txt, "Jump No. ", &p)); double at = after(txt, " at time ", &p); SIM_CHECK(at == t && no == int(rec.back().second), "log-output", where << "jump No. " << rec.back().second << " at " << t << " reported as No. " << no << " at " << at); }
    if (k.logLevel < 3) SIM_CHECK(!occurrences(txt, "overshot"), "log-output", where << "overshoots reported"); if (k.logLevel < 4) SIM_CHECK(!occurrences(txt, "failed"), "log-output", where << "failed steps reported");
    size_t p = 0; for (double dp; dp = after(txt, "dpLimit overshot: ", &p), !std::isnan(dp); ) { double o1 = after(txt, "timestep decreased: ", &p), o2 = after(txt, " => ", &p); SIM_CHECK(dp > k.dpLimit * (1 - 1e-9) && std::fabs(dp / o1 * o2 - k.dpLimit) < 1e-9 && std::fabs(tr->getDtTry() - o2) <= 1e-12 * o2, "overshoot-report", where << "reported jump probability " << dp << ", limit " << k.dpLimit << ", time step " << o1 << " => " << o2 << ", in fact " << tr->getDtTry()); }
    p = 0; for (double dp; dp = after(txt, "dpTolerance overshot: ", &p), !std::isnan(dp); ) { double back = after(txt, "stepping back to ", &p), o1 = after(txt, "timestep decreased: ", &p), o2 = after(txt, " => ", &p); SIM_CHECK(dp > k.dpLimit * k.overshoot && back == t0 && std::fabs(dp / o1 * o2 - k.dpLimit) < 1e-9, "overshoot-report", where << "reported jump probability " << dp << ", tolerated " << k.dpLimit * k.overshoot << ", stepping back to " << back << " from " << o1 << " => " << o2); }
    // the summary
    if (sim::draw(2) || s + 1 == n) {
      std::string e = endText(*tr); Summary x = summary(e); if (k.logLevel < 1) { SIM_CHECK(e.empty(), "log-output", where << "summary at log level 0: " << e); continue; } SIM_CHECK(x.mcwf, "summary", where << "no summary");
      SIM_CHECK(x.steps == s + 1, "summary", where << x.steps << " steps reported instead of " << s + 1 << " after " << restarts << " restarts"); SIM_CHECK(x.jumps == jumps, "summary", where << "the list of " << x.jumps.size() << " jumps is not that of the " << jumps.size() << " that happened, after " << restarts << " restarts");
      if (k.logLevel > 2) { auto maxOf = [&](const char* l) { double mx = 0; size_t q = 0; for (double dp; dp = after(log, l, &q), !std::isnan(dp); ) mx = std::max(mx, dp); return mx; }; unsigned no = occurrences(log, "dpLimit overshot: "), nb = occurrences(log, "dpTolerance overshot: ");
        SIM_CHECK(x.over == no + over0 && x.back == nb, "summary", where << "overshoots summed up as " << x.over << " and " << x.back << " while " << no << " and " << nb << " were reported"); SIM_CHECK(std::fabs(x.overMax - maxOf("dpLimit overshot: ")) < 1e-12 * (1 + x.overMax) && std::fabs(x.backMax - maxOf("dpTolerance overshot: ")) < 1e-12 * (1 + x.backMax), "summary", where << "maximal overshoots " << x.overMax << " and " << x.backMax << " while the reported ones are " << maxOf("dpLimit overshot: ") << " and " << maxOf("dpTolerance overshot: ")); if (nb) sim::count("probe:stepped-back"); }
      if (normKnown(c)) SIM_CHECK(x.norm >= dev - 1e-6 - 1e3 * k.epsRel, "summary", where << "the norm deviated by " << dev << ", reported maximum " << x.norm); if (x.back == 0 && normKnown(c)) SIM_CHECK(std::fabs(x.norm - dev) < 1e-6 + 1e3 * k.epsRel + 1e-3 * dev, "summary", where << "the norm deviated by " << dev << ", reported " << x.norm);
      SIM_CHECK(x.odePart, "summary", where << "no summary of the ODE engine"); if (ha) { SIM_CHECK(x.ode == x.steps + x.back, "summary", where << x.ode << " ODE steps for " << x.steps << " steps and " << x.back << " taken back"); SIM_CHECK(x.rhs == 6 * (x.ode + x.failed), "summary", where << x.rhs << " evaluations of the right-hand side in " << x.ode << " steps and " << x.failed << " failed ones"); } else SIM_CHECK(x.ode == 0 && x.rhs == 0, "summary", where << "ODE steps without Hamiltonian");
      if (k.logLevel > 3 && ha) { double f = 0; size_t q = 0; for (double y; y = after(log, "Number of failed steps in this timestep: ", &q), !std::isnan(y); ) f += y; SIM_CHECK(f == x.failed && occurrences(log, "Number of failed steps in this timestep: ") == x.ode, "summary", where << x.failed << " failed steps in the summary, " << f << " reported"); } }
  }
  if (lossy) sim::nontrivial();
}
template <int R> void logEnsemble() {
  Cfg c = drawFor<R>(false); Model<R> me = build<R>(c); Set s = drawSet(); s.nTraj = 1 + sim::draw(5); s.perBin = sim::pick(std::vector<size_t>{50, 1, 2, 3}); Vec psi; Mat rho; initial<R>(me, psi, rho); SIM_EVENT(describe(c) << " members " << s.nTraj << " bins " << s.nBins); sim::setSummary(describe(c) + " members " + std::to_string(s.nTraj)); sim::shape(describe(c) + std::to_string(s.nTraj));
  auto e = make<R>(ENSEMBLE, me, rho, psi, s); std::vector<Model<R>> own; std::vector<Ptr<R>> solo; Set q = s; q.log = 1; for (size_t i = 0; i < s.nTraj; ++i) { own.push_back(build<R>(c)); q.stream = s.stream + i; solo.push_back(make<R>(SINGLE, own.back(), rho, psi, q)); }
  double t = 0; unsigned n = 1 + unsigned(sim::draw(4)); std::vector<Model<R>> keep; keep.reserve(8);
  for (unsigned i = 0; i < n; ++i) { double dT = drawStep() * (1 + sim::draw(4)); if (sim::chance(1, 4)) { std::string sv = e->bytes(); keep.push_back(build<R>(c)); e = make<R>(ENSEMBLE, keep.back(), rho, psi, s); e->restore(sv); sim::count("fault:restart"); if (me.ex) return; } e->go(dT); t += dT; for (auto& x : solo) { const double end = x->time() + dT; for (double d; (d = end - x->time()) > 0; ) x->go(d); } sim::addSimTime(dT * s.nTraj); }
  double steps = 0, over = 0, overMax = 0, back = 0, backMax = 0, norm = 0, jumps = 0, first = INFINITY, last = -INFINITY; std::vector<double> at; for (auto& x : solo) { Summary y = summary(x->end()); SIM_CHECK(y.mcwf, "summary", me.name << ": no summary of a single trajectory"); steps += y.steps; over += y.over; back += y.back; overMax = std::max(overMax, y.overMax); backMax = std::max(backMax, y.backMax); norm = std::max(norm, y.norm); jumps += y.jumps.size(); for (auto& j : y.jumps) { at.push_back(j.first); first = std::min(first, j.first); last = std::max(last, j.first); } }
  double N = double(s.nTraj); std::string txt = e->end(), where = me.name + ", ensemble of " + std::to_string(s.nTraj) + " at t=" + g17(t) + ": "; SIM_EVENT(txt); size_t p = 0; auto near = [&](double a, double b) { return std::fabs(a - b) <= 2e-5 * (1e-6 + std::fabs(b)); };
  double gs = after(txt, "Average number of total steps: "), go = after(txt, "On average, dpLimit overshot: ", &p), gom = after(txt, "maximal overshoot: ", &p); p = 0; double gb = after(txt, "On average, dpTolerance overshot: ", &p), gbm = after(txt, "maximal overshoot: ", &p), gn = after(txt, "Maximal deviation of norm from 1: "), gj = after(txt, "Average number of total jumps: ");
  const bool bitwise = !me.ex; /* otherwise the last bits decide whether a step exactly at the limit overshoots it */ SIM_CHECK((near(gs, steps / N) && near(gj, jumps / N) && near(go, over / N) && near(gb, back / N)) || !bitwise, "ensemble-summary", where << "mean number of steps, overshoots, steps taken back and jumps reported as " << gs << ", " << go << ", " << gb << ", " << gj << " instead of " << steps / N << ", " << over / N << ", " << back / N << ", " << jumps / N);
  if (!bitwise && !(near(gs, steps / N) && near(gj, jumps / N))) { sim::count("probe:remainder"); return; }
  SIM_CHECK((near(gom, overMax) && near(gbm, backMax) && (near(gn, norm) || std::fabs(gn - norm) < 1e-9)) || !bitwise, "ensemble-summary", where << "maxima reported as " << gom << ", " << gbm << ", " << gn << " instead of " << overMax << ", " << backMax << ", " << norm);
  size_t bins = s.nBins ? s.nBins : size_t(jumps) / s.perBin; if (!s.nBins && jumps < 2. * double(s.perBin)) SIM_CHECK(txt.find("Too few jumps") != std::string::npos, "histogram", where << "a histogram of " << jumps << " jumps");
  else if (jumps > 0) { p = txt.find("Histogram of jumps. Number of bins="); SIM_CHECK(p != std::string::npos, "histogram", where << "no histogram of " << jumps << " jumps"); std::istringstream is(txt.substr(txt.find('\n', p))); std::vector<std::pair<double, double>> h; double a, b; while (is >> a >> b) h.push_back({a, b}); SIM_CHECK(h.size() == bins + 2, "histogram", where << h.size() << " bins instead of " << bins + 2);
    double sum = 0; for (auto& x : h) sum += x.second; SIM_CHECK(std::fabs(sum - 1) < 1e-4, "histogram", where << "the histogram adds up to " << sum); if (last > first + 1e-3) { double w = (last - first) / double(bins); for (size_t b2 = 1; b2 + 1 < h.size(); ++b2) { double lo = first + double(b2 - 1) * w, cnt = 0; bool edge = false; for (double x : at) { if (std::fabs(x - lo) < 1e-4 || std::fabs(x - lo - w) < 1e-4) edge = edge || (b2 > 1 && b2 + 2 < h.size()) || (std::fabs(x - lo) < 1e-4 && b2 > 1) || (std::fabs(x - lo - w) < 1e-4 && b2 + 2 <= h.size()); cnt += x >= lo && x < lo + w; } SIM_CHECK(near(h[b2].first, lo), "histogram", where << "bin No. " << b2 << " starts at " << h[b2].first << " instead of " << lo); if (!edge) SIM_CHECK(std::fabs(h[b2].second - cnt / jumps) < 1e-5, "histogram", where << "bin No. " << b2 << " holds a share " << h[b2].second << " instead of " << cnt / jumps); } } sim::count("probe:histogram"); }
  sim::nontrivial();
}
template <int R> void logs() { if (sim::chance(1, 4)) logEnsemble<R>(); else logSingle<R>(); }
}
