// Simulated quantum trajectories, one template instantiation per rank (qphys1.cc, qphys2.cc, qphys3.cc).
#pragma once
#include "qtraj.h"
namespace qp {
using namespace qt;
inline std::string f17(double d) { std::ostringstream o; o.precision(10); o << d; return o.str(); }

// with thermal excitation the top level of a truncated mode has no consistent jump operators: what may deviate, per unit population of the top levels
inline double topSlack(const Cfg& c) { double s = 0; for (int i = 0; i < c.rank; ++i) if (c.f[i].kind == F_MODE || c.f[i].kind == F_BICHRO || c.f[i].kind == F_HOMO) s += 2 * c.f[i].kappa * c.f[i].nTh * c.f[i].dim; return s; }
inline double topPop(const std::vector<bool>& top, const Vec& v) { double p = 0; for (int i = 0; i < v.size(); ++i) if (top[i]) p += std::norm(v(i)); return p; }

// what the framework does with a second pump of a mode at another frequency: its phase starts anew at the beginning of every step (a known defect of BichromaticMode)
inline Dyn phaseReset(const Dyn& d, double t0) { Dyn r = d; for (auto& m : r.mod) m.phi -= m.w * t0; return r; }
inline bool bichromatic(const Cfg& c) { return c.rank == 1 && c.f[0].kind == F_BICHRO; }

// what one step may lead to
struct Branches { Vec psi0; std::vector<Vec> jumped; std::vector<double> p; double total = 0, slack = 0; };
template <int R> Branches branches(const Cfg& c, const Model<R>& m, const Vec& before, double t0, double t1, bool reset = false) {
  Branches b; b.psi0 = evolve(reset ? phaseReset(m.d, t0) : m.d, before, t0, t1); b.psi0 /= b.psi0.norm();
  for (auto& j : m.d.J) { Vec v = j.at(t1) * b.psi0; double p = v.squaredNorm() * (t1 - t0); b.p.push_back(p); b.total += p; b.jumped.push_back(p > 0 ? Vec(v / v.norm()) : v); }
  b.slack = topSlack(c) * (t1 - t0) * topPop(m.top, b.psi0); return b; }

template <int R> struct Probe { Vec psi; double t, dt; };
template <int R> Probe<R> probeStep(const Model<R>& m, const Knobs& k, const std::string& saved, double deltaT, double u) {
  scripts().u[0] = {u}; Vec any = Vec::Zero(m.N); any(0) = 1.; auto x = mcwf<R>(m, any, k, 0); load(x, saved); 
  // the restored engine continues where it was: present the same number at its position
  scripts().u[0].assign(4096, u); x.step(deltaT, nul()); Vec v = psiOf<R>(x); return {v / v.norm(), x.getTime(), x.getDtDid()}; }

// every step of a trajectory obeys the law of the Monte Carlo wave-function method
template <int R> void stepLaw() {
  Cfg c = drawCfg(R); Model<R> m = build<R>(c); Knobs k = drawKnobs(); k.epsRel = 1e-10; if (k.dpLimit * k.overshoot > .9) k.overshoot = .9 / k.dpLimit; scripts().u.assign(1, {}); Vec psi = drawState(m.top, true); std::string name = m.name;
  if (sim::chance(1, 4)) k.dtInit *= 20;
  auto& us = scripts().u[0]; us.assign(64, .999999); MCWF<R> tr = mcwf<R>(m, psi, k, 0); unsigned n = 1 + unsigned(sim::draw(6)); int jumps = 0; bool lossy = !m.d.J.empty();
  SIM_EVENT(describe(c)); sim::setSummary(describe(c)); const double tol = 2e-7;
  for (unsigned s = 0; s < n; ++s) {
    Vec before = psiOf<R>(tr); double t = tr.getTime(), dtTry = tr.getDtTry(); std::string saved = save(tr);
    double deltaT = std::min(3., std::vector<double>{.1, .5, dtTry, 2., .01, dtTry * .05}[sim::draw(6)]);
    Probe<R> nj = probeStep<R>(m, k, saved, deltaT, .99999999);
    Branches b = branches<R>(c, m, before, t, t + nj.dt);
    if (bichromatic(c) && rayDist(b.psi0, nj.psi) > tol) { Branches alt = branches<R>(c, m, before, t, t + nj.dt, true); if (rayDist(alt.psi0, nj.psi) < tol) { b = alt; sim::known("bichromatic-phase", "the phase of the second pump starts anew at every step"); } }
    if (topSlack(c) > 0 && topPop(m.top, b.psi0) > .01) { sim::count("probe:cutoff-reached"); break; }   // beyond what a truncated thermal mode can describe
    double u; switch (sim::draw(4)) { case 0: u = .999999; break; case 1: u = b.total * sim::real(0, 1); break; case 2: u = sim::real(0, 1); break; default: u = b.total * (sim::draw(2) ? .9999 : 1.0001); } u = std::min(std::max(u, 1e-12), .9999999); if (b.total > 1. && u > .9) u = .5;
    us.assign(64, u); size_t rec0 = tr.getLogger().getTrajectory().size(); tr.step(deltaT, nul()); const auto& rec = tr.getLogger().getTrajectory(); double dt = tr.getDtDid(); Vec after = psiOf<R>(tr); double nrm = after.norm(); after /= nrm;
    SIM_EVENT("step " << s << " dT=" << deltaT << " t=" << tr.getTime() << " dt=" << dt << " u=" << u << " P=" << b.total); sim::eventBits("psi", bits(after)); sim::addSimTime(dt); if (s == 0) sim::shape(describe(c) + std::to_string(n));
    std::string where = name + " step " + std::to_string(s) + " t=" + f17(t) + " dt=" + f17(dt) + ": ";
    SIM_CHECK(dt > 0 && dt <= deltaT * (1 + 1e-12), "step-length", where << "asked to go at most " << deltaT);
    SIM_CHECK(std::fabs(tr.getTime() - (t + dt)) <= 1e-12 * (1 + std::fabs(t)), "time-advance", where << "time is " << tr.getTime());
    SIM_CHECK(std::fabs(dt - nj.dt) < 1e-6 * dt, "step-depends-on-luck", where << "without a jump the same step has length " << nj.dt);
    SIM_CHECK(b.total <= k.dpLimit * k.overshoot * (1 + 1e-5) + b.slack + 1e-9, "jump-probability-limit", where << "jump probability " << b.total << " exceeds the tolerated " << k.dpLimit * k.overshoot);
    double hole = topSlack(c) > 0 ? 8. * R * topPop(m.top, b.psi0) : 0.;   // a thermal photon cannot be added to the last level of a truncated mode
    SIM_CHECK(nrm < 1. + 1e-9 && nrm * nrm > 1. - 1e-9 - hole, "norm", where << "norm is " << nrm);
    SIM_CHECK(rayDist(b.psi0, nj.psi) < tol, "no-jump-evolution", where << "without jump, the state deviates by " << rayDist(b.psi0, nj.psi));
    if (!lossy) { SIM_CHECK(rayDist(b.psi0, after) < tol, "no-jump-evolution", where << "the state deviates by " << rayDist(b.psi0, after)); continue; }
    double edge = 1e-6 * b.total + 1e-10 + b.slack;
    SIM_CHECK(rec.size() == rec0 + (u < b.total - edge) || (u >= b.total - edge && u <= b.total + edge), "jump-record", where << "the record of jumps grew from " << rec0 << " to " << rec.size() << " at random number " << u << ", jump probability " << b.total);
    if (rec.size() > rec0) { auto last = rec.back(); SIM_CHECK(last.first == tr.getTime() && last.second < b.jumped.size(), "jump-record", where << "recorded jump No. " << last.second << " at " << last.first << " while the time is " << tr.getTime());
      SIM_CHECK(b.slack > 1e-12 || rayDist(b.jumped[last.second], after) < 1e-3, "jump-record", where << "the state after the jump is not that of the recorded jump No. " << last.second); }
    if (u > b.total + edge) SIM_CHECK(rayDist(b.psi0, after) < tol, "jump-probability", where << "a jump happened at random number " << u << " although the total jump probability is " << b.total);
    else if (u < b.total - edge) {
      ++jumps; sim::count("probe:jump"); double best = 9; for (size_t q = 0; q < b.p.size(); ++q) if (b.p[q] > 1e-14) best = std::min(best, rayDist(b.jumped[q], after));
      SIM_CHECK(rayDist(b.psi0, after) > tol || best < 1e-4, "jump-probability", where << "no jump happened at random number " << u << " although the total jump probability is " << b.total);
      double jt = tol * (1 + 20 * std::sqrt(m.d.J.size() * (t + dt - t) / std::max(1e-12, b.total))) + 50 * b.slack; SIM_CHECK(best < std::max(1e-5, jt), "jump-outcome", where << "after a jump the state is none of the jumped ones, deviation " << best);
    }
    // how likely each outcome is, measured by stepping from the same state with other random numbers
    if (b.total > 1e-7 && (s == 0 || sim::chance(1, 4))) {
      auto match = [&](const Vec& v, const Vec& w) { return rayDist(v, w) < 1e-3; };
      auto prob = [&](const Vec& w) { double p = 0; for (size_t q = 0; q < b.p.size(); ++q) if (b.p[q] > 0 && match(b.jumped[q], w)) p += b.p[q]; return p; };   // channels with the same outcome add up
      double cum = 0; bool bad = false; 
      for (size_t q = 0; q < b.p.size() && !bad; ++q) { if (b.p[q] > 1e-3 * b.total) for (double x : {.02, .5, .98}) { Probe<R> p = probeStep<R>(m, k, saved, deltaT, cum + x * b.p[q]); sim::count("probe:branch"); if (!match(b.jumped[q], p.psi)) bad = true; } cum += b.p[q]; }
      if (bad && b.slack < 1e-9) { // not in this order: measure the shares
        const int N = 400; std::vector<double> share(b.p.size(), 0.); double none = 0; for (int i = 0; i < N; ++i) { Probe<R> p = probeStep<R>(m, k, saved, deltaT, b.total * (i + .5) / N); bool hit = false; for (size_t q = 0; q < b.p.size() && !hit; ++q) if (b.p[q] > 0 && match(b.jumped[q], p.psi)) { share[q] += 1. / N; hit = true; } if (!hit) none += 1. / N; }
        SIM_CHECK(none < .01, "jump-probability", where << "a share " << none << " of the random numbers below the total jump probability leads to none of the jumps");
        for (size_t q = 0; q < b.p.size(); ++q) { double want = prob(b.jumped[q]) / b.total, got = 0; for (size_t r = 0; r < b.p.size(); ++r) if (b.p[r] > 0 && b.p[q] > 0 && match(b.jumped[q], b.jumped[r])) got += share[r]; SIM_CHECK(b.p[q] <= 0 || std::fabs(want - got) < .02, "jump-branching", where << "jump " << q << " has a share " << got << " of the jumps instead of " << want); }
      }
    }
    if (lossy) sim::nontrivial();
  }
  if (!lossy) sim::nontrivial();
  sim::setSummary(describe(c) + " jumps " + std::to_string(jumps));
}

// the Master equation
template <int R> void masterLaw() {
  Want w; bool any = sim::chance(1, 5); w.master = !any; Cfg c = drawCfg(R, w); if (any) for (auto& f : c.f) if (f.kind == F_DENSE && (f.pic == 2 || f.variant / 4 % 4 == 0 || f.variant / 4 % 4 == 3)) f.pic = 0; /* a unitary picture is not enough for an arbitrary jump */ Model<R> m = build<R>(c); if (!m.masterOK && !any) { for (auto& f : c.f) f.pic = f.kind == F_QBIT && f.par > 0 ? 2 : 0; m = build<R>(c); } Knobs k = drawKnobs(); k.epsRel = 1e-9; 
  Vec a = drawState(m.top, false), b = drawState(m.top, false); double q = .5 * double(sim::draw(3)) / 2; Mat rho = (1 - q) * a * a.adjoint() + q * b * b.adjoint();
  SIM_EVENT(describe(c)); sim::setSummary(describe(c)); 
  // in a picture that is not unitary, the equation does not apply: such a system is refused
  if (any) { bool refused = false; try { master<R>(m, rho, k); } catch (const quantumtrajectory::master::SystemNotApplicable&) { refused = true; } SIM_EVENT("refused " << refused); SIM_CHECK(!refused || !m.masterOK, "refused", m.name << ": refused although the Master equation applies"); if (refused) { sim::nontrivial(); sim::shape("refused " + describe(c)); return; } }
  auto tr = master<R>(m, rho, k); unsigned n = 1 + unsigned(sim::draw(4)); double slack = 0; Mat ref = rho; sim::shape(describe(c) + std::to_string(n));
  for (unsigned s = 0; s < n; ++s) {
    double t = tr.getTime(), deltaT = std::vector<double>{.1, .4, 1., .01}[sim::draw(4)]; Mat before = rhoOf<R>(tr); tr.step(deltaT, nul()); double dt = tr.getDtDid(); Mat after = rhoOf<R>(tr), want = evolveRho(m.d, before, t, t + dt); double tw = want.trace().real(); want /= tw; if (bichromatic(c) && (after - want).norm() > 1e-6) { Mat alt = evolveRho(phaseReset(m.d, t), before, t, t + dt); alt /= alt.trace().real(); if ((after - alt).norm() < 1e-6) { want = alt; sim::known("bichromatic-phase", "the phase of the second pump starts anew at every step"); } }
    double pt = 0; for (size_t i = 0; i < m.N; ++i) if (m.top[i]) pt += std::max(before(i, i).real(), after(i, i).real()); slack = 4 * topSlack(c) * dt * pt;
    SIM_EVENT("step " << s << " t=" << tr.getTime() << " dt=" << dt); sim::eventBits("rho", bits(after)); sim::addSimTime(dt); std::string where = m.name + " step " + std::to_string(s) + " t=" + f17(t) + " dt=" + f17(dt) + ": ";
    SIM_CHECK(dt > 0 && dt <= deltaT * (1 + 1e-12) && std::fabs(tr.getTime() - t - dt) < 1e-12 * (1 + t), "step-length", where << "asked to go at most " << deltaT << ", time is " << tr.getTime());
    SIM_CHECK((after - want).norm() < 1e-6 + slack, "lindblad", where << "density operator deviates from the Lindblad equation by " << (after - want).norm());
    SIM_CHECK(std::fabs(after.trace().real() - 1.) < 1e-10, "trace", where << "trace is " << after.trace().real());
    SIM_CHECK((after - after.adjoint()).norm() < 1e-10, "hermiticity", where << "not Hermitian by " << (after - after.adjoint()).norm());
    Eigen::SelfAdjointEigenSolver<Mat> es(after, Eigen::EigenvaluesOnly); SIM_CHECK(es.eigenvalues()(0) > -1e-6 - slack, "positivity", where << "an eigenvalue is " << es.eigenvalues()(0));
  }
  sim::nontrivial(); sim::setSummary(describe(c));
}
}
