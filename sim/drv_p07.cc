#include "classical.h"
// P07: the ODE engines. Reference: the same differential equation integrated in long double with steps much shorter than those of the engine.
namespace {
using cppqedutils::ode_engine::Base; using LD = long double;
inline std::string g17(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }

// a family of right-hand sides over n values (real or complex): linear, driven, nonlinear; wall: refuses nothing, but gets steep
struct Sys { int form = 0; double w = 1, k = .1, drive = 0, wd = 1; uint64_t* calls = nullptr;
  template <typename V> void rhs(const V* y, V* d, int n, LD t) const {
    using R = decltype(std::abs(V())); for (int i = 0; i < n; ++i) { V a = y[i], b = y[(i + 1) % n]; R s = i % 2 ? -1 : 1;
      d[i] = R(-k) * R(i + 1) * a + R(w) * s * b + R(drive) * R(cosl(LD(wd) * t)); if (form == 1) d[i] -= R(w) * a * R(std::abs(a) * std::abs(a)); if (form == 2) d[i] *= R(1 + 3 * expl(-8 * (t - .7L) * (t - .7L))); } }
  template <typename A> void operator()(const A& y, A& dy, double t) const { if (calls) ++*calls; using V = typename A::T_numtype; rhs<V>(y.data(), const_cast<A&>(dy).data(), y.extent(0), t); } };

// long-double reference over [t,t+h]: RK4 with two resolutions, extrapolated
template <typename V> std::vector<V> rk4(const Sys& s, std::vector<V> y, LD t, LD h, int N) { int n = int(y.size()); std::vector<V> k1(n), k2(n), k3(n), k4(n), z(n); LD d = h / N; for (int q = 0; q < N; ++q) { LD u = t + q * d; s.rhs<V>(y.data(), k1.data(), n, u); for (int i = 0; i < n; ++i) z[i] = y[i] + d / 2 * k1[i]; s.rhs<V>(z.data(), k2.data(), n, u + d / 2); for (int i = 0; i < n; ++i) z[i] = y[i] + d / 2 * k2[i]; s.rhs<V>(z.data(), k3.data(), n, u + d / 2); for (int i = 0; i < n; ++i) z[i] = y[i] + d * k3[i]; s.rhs<V>(z.data(), k4.data(), n, u + d); for (int i = 0; i < n; ++i) y[i] += d / 6 * (k1[i] + LD(2) * k2[i] + LD(2) * k3[i] + k4[i]); } return y; }
template <typename V> std::vector<V> reference(const Sys& s, const std::vector<V>& y, LD t, LD h, double L) { int N = 4 + int(std::fabs(double(h)) * L * 25); auto a = rk4<V>(s, y, t, h, N), b = rk4<V>(s, y, t, h, 2 * N); for (size_t i = 0; i < a.size(); ++i) b[i] += (b[i] - a[i]) / LD(15); return b; }

template <typename T> struct Long; template <> struct Long<double> { using type = LD; }; template <> struct Long<dcomp> { using type = std::complex<LD>; };
struct Counts { long steps = -1, failed = -1, derivs = -1; };
inline Counts parseLog(const std::string& s) { Counts c; auto at = [&](const char* k) { size_t p = s.find(k); return p == std::string::npos ? -1L : atol(s.c_str() + p + strlen(k)); }; c.steps = at("Total number of ODE steps: "); c.failed = at("Number of failed ODE steps: "); c.derivs = at("Number of calls to function calculating RHS for ODE: "); return c; }

template <typename ENGINE, typename A, bool OUT> void engine(const char* name, bool gsl, std::function<ENGINE(double, double, double, int)> make) {
  using T = typename A::T_numtype; using V = typename Long<T>::type; int n = 1 + int(sim::draw(4)); uint64_t calls = 0; Sys s{int(sim::draw(3)), .4 * double(sim::draw(8)), .05 * double(sim::draw(10)), sim::chance(1, 3) ? .7 : 0., .5 + double(sim::draw(4)), &calls}; double scale = sim::pick(std::vector<double>{1., 1e-3, 30., 1e-6}); if (s.form == 1 && scale > 1) scale = 1;
  double eps = sim::pick(std::vector<double>{1e-6, 1e-3, 1e-8, 1e-4, 1e-10}), abs = sim::pick(std::vector<double>{1e-12, 1e-8, 1e-5, 1e-3}), dt0 = sim::pick(std::vector<double>{.1, .01, 1., 1e-4, 5.}); if (gsl && s.form == 1) dt0 = std::min(dt0, .1); /* the GSL control measures the error relative to the outcome, and hence does not notice an attempt exploding */ int lev = sim::draw(3) ? 5 : 0; A y(n); for (int i = 0; i < n; ++i) y(i) = T(scale * (1. - .25 * double(sim::draw(8)))); if constexpr (std::is_same_v<T, dcomp>) for (int i = 0; i < n; ++i) y(i) += dcomp(0, scale * (.25 * double(sim::draw(5)) - .5));
  ENGINE e = make(dt0, eps, abs, lev); double t = sim::pick(std::vector<double>{0., 1., -3., 100.}); std::ostringstream desc; desc << name << " dim " << n << " form " << s.form << " w=" << s.w << " k=" << s.k << " drive=" << s.drive << " scale " << scale << " eps " << eps << " epsAbs " << abs << " dtInit " << dt0; std::string d = desc.str(); SIM_EVENT(d); sim::setSummary(d); sim::shape(d); double L = 1 + std::fabs(s.w) + s.k * n + 3 * s.w * (s.form == 1 ? 3. : 0.) + s.wd; if (s.form == 2) L *= 4;
  std::ostringstream params; e.streamParameters(params); long steps = 0, failed = 0; bool sawBack = false; const double dir = s.form != 1 && sim::draw(3) == 2 ? -1 : 1; unsigned K = 2 + unsigned(sim::draw(10));
  for (unsigned q = 0; q < K; ++q) {
    double room = e.getDtTry(), ask = sim::pick(std::vector<double>{1., .3, 3., .05, 10.}); int how = int(sim::draw(8)); if (how == 6) ask = std::fabs(room) * sim::pick(std::vector<double>{.05, .09, .5, .999, 1e-3}); bool back = how == 7 && q > 0 && s.form != 1; { double m = 0; for (int i = 0; i < n; ++i) m = std::max(m, std::abs(y(i))); if (!(m < 1e6)) break; } if (back || dir < 0) { sawBack = true; sim::count("probe:backward"); if (how != 6) ask = std::min(ask, 1.); } ask *= back ? -dir : dir; if (!(std::fabs(ask) > 1e-13)) break;
    std::vector<V> y0(n); for (int i = 0; i < n; ++i) y0[i] = V(y(i)); A keep(y.copy()); double t0 = t, try0 = room; uint64_t c0 = calls; std::ostringstream log; bool out = sim::draw(4) == 3;
    if (out) { A z(n); z = T(77.); if constexpr (OUT) { e.step(ask, log, s, t, std::as_const(keep), std::move(z)); for (int i = 0; i < n; ++i) SIM_CHECK(V(keep(i)) == y0[i], "input-changed", d << ": a step from one state into another changed the former"); y.reference(z); } else e.step(ask, log, s, t, y); } else e.step(ask, log, s, t, y);
    double did = e.getDtDid(); ++steps; std::string where = d + " step " + std::to_string(q) + " from t=" + g17(t0) + " asked " + g17(ask) + " tried " + g17(try0) + " did " + g17(did) + ": "; SIM_EVENT(where); for (int i = 0; i < n; ++i) { sim::eventBits("y", std::real(y(i))); sim::eventBits("y", std::imag(y(i))); } sim::addSimTime(std::fabs(did));
    SIM_CHECK(did == t - t0, "step-length", where << "the time has changed by " << t - t0); SIM_CHECK(did * ask > 0, "direction", where << "the step goes in the wrong direction or nowhere"); SIM_CHECK(std::fabs(did) <= std::fabs(ask) + 2e-15 * (std::fabs(t) + std::fabs(t0)), "overshoot", where << "the step is longer than asked for"); SIM_CHECK(std::isfinite(e.getDtTry()) && e.getDtTry() != 0, "next-step", where << "the next step to try is " << e.getDtTry());
    if (gsl && s.form == 1) { bool exploded = false; for (int i = 0; i < n; ++i) exploded = exploded || !(std::abs(y(i)) < 100 * (std::abs(keep(i)) + scale)); if (exploded) { failed = -1000000; y = T(1.); break; } } /* see above */
    // accuracy
    auto want = reference<V>(s, y0, t0, did, L); std::vector<V> f0(n); s.rhs<V>(y0.data(), f0.data(), n, t0); std::vector<V> y1(n), f1(n); for (int i = 0; i < n; ++i) y1[i] = V(y(i)); s.rhs<V>(y1.data(), f1.data(), n, t); if (!gsl) y1 = y0, f1 = f0; double worst = 0, swapped = 0, big = 0; for (int i = 0; i < n; ++i) big = std::max(big, double(std::max(std::abs(want[i]), std::abs(y0[i]))));
    for (int i = 0; i < n; ++i) { double err = std::max(0., double(std::abs(V(y(i)) - want[i])) - 2e-14 * big - 1e-300), sc = std::max(double(std::abs(y0[i])), std::max(double(std::abs(want[i])), double(std::abs(y1[i])))) + std::fabs(did) * std::max(double(std::abs(f0[i])), double(std::abs(f1[i]))); worst = std::max(worst, err / (abs + eps * sc)); swapped = std::max(swapped, err / (eps + abs * sc)); }
    if (getenv("P07_STAT")) SIM_EVENT("worst " << worst << " swapped " << swapped); double lim = 20 * std::pow(std::max(1., std::fabs(did) * L), 6); /* the error estimate of the stepper is reliable for steps short on the scale of the solution only */ if (getenv("P07_STAT")) { if (worst > .3) sim::count("stat:w" + std::to_string(int(std::log10(worst) * 2 + 100))); if (swapped > .3) sim::count("stat:s" + std::to_string(int(std::log10(swapped) * 2 + 100))); }
    if (worst > lim) { if (swapped <= lim) sim::known("tolerances-exchanged", where + "the error is " + g17(worst) + " times the tolerance"); else SIM_CHECK(false, "inaccurate", where << "the error of the step is " << worst << " times the tolerance, " << swapped << " times with relative and absolute precision exchanged"); }
    // a tiny step at the end of an interval is excluded from stepsize control
    if (did == ask && std::fabs(ask) < .0999 * std::fabs(try0) && ask * try0 > 0) { sim::count(ask > 0 ? "probe:tiny" : "probe:tiny-backward"); SIM_CHECK(e.getDtTry() == try0, "tiny-step", where << "the next step to try has become " << e.getDtTry()); }
    // attempts that were rejected leave no trace
    bool firstTry = std::fabs(did) >= std::min(std::fabs(try0), std::fabs(ask)) * (1 - 1e-12); uint64_t used = calls - c0;
    if (!firstTry) sim::count("fault:rejected-attempt");
    { ENGINE f = make(did, eps, abs, 0); A z(n); for (int i = 0; i < n; ++i) z(i) = keep(i); double u = t0; uint64_t c1 = calls; std::ostringstream l2; f.step(did, l2, s, u, z); uint64_t alone = calls - c1; calls = c1;
      if (std::fabs(f.getDtDid() - did) <= 1e-15 * std::fabs(did)) { double dev = 0; for (int i = 0; i < n; ++i) dev = std::max(dev, std::abs(z(i) - y(i))); double fmax = 0; for (auto& x : f0) fmax = std::max(fmax, double(std::abs(x))); SIM_CHECK(dev <= 1e-14 * big + 1e-14 * (1 + std::fabs(t)) * (fmax + big * L) * std::pow(std::max(1., std::fabs(did) * L), 6), "trace-of-attempts", where << "the result differs by " << dev << " from that of the same step without earlier attempts"); sim::count("probe:compared");
        if (alone) { SIM_CHECK(used % alone == 0 && used >= alone, "call-count", where << used << " evaluations of the right-hand side where a step alone takes " << alone); long fl = long(used / alone) - 1; failed += fl; if (lev > 3) { size_t p = log.str().find("failed steps in this timestep: "); SIM_CHECK(p != std::string::npos && atol(log.str().c_str() + p + 31) == fl, "log", where << "the log says '" << log.str() << "' after " << fl << " failed attempts"); } else SIM_CHECK(log.str().empty(), "log", where << "unasked log"); } else failed = -1000000; }
      else failed = -1000000; }
  }
  std::ostringstream end; e.logOnEnd(end); Counts c = parseLog(end.str());
  if (lev > 0) { SIM_CHECK(c.steps == steps, "log", d << ": " << c.steps << " steps are logged out of " << steps); SIM_CHECK(c.derivs == long(calls), "log", d << ": " << c.derivs << " evaluations are logged out of " << calls); if (failed >= 0) SIM_CHECK(c.failed == failed, "log", d << ": " << c.failed << " failed steps are logged out of " << failed); } else SIM_CHECK(end.str().empty(), "log", d << ": unasked log");
  // progress: however an interval is cut up, the work grows only with the number of pieces
  { double T = sim::pick(std::vector<double>{1., 3., .2}), u = 0; unsigned pieces = 1 + unsigned(sim::draw(12)); std::vector<double> cut; for (unsigned i = 1; i < pieces; ++i) cut.push_back(T * sim::real(.001, .999)); std::sort(cut.begin(), cut.end()); cut.push_back(T); auto work = [&](bool all, A& z) { ENGINE f = make(dt0, eps, abs, 0); double v = 0; long m = 0; z = A(n); for (int i = 0; i < n; ++i) z(i) = y(i); for (double c : cut) { if (!all && c != T) continue; while (v * dir < c) { double b = v; f.step(dir * c - v, nul(), s, v, z); if (++m > 200000) sim::fail("no-progress", d + ": more than 200000 steps"); if (c - v * dir < 1e-13) break; (void)b; } } return m; };
    A z1(n), z2(n); long one = work(false, z1), many = work(true, z2); (void)u; SIM_CHECK(many <= 2 * one + 3 * long(pieces) + 10, "slow", d << ": " << many << " steps for " << pieces << " pieces of an interval that takes " << one << " in one piece"); }
  if (sawBack || steps > 2) sim::nontrivial();
}
}

template <template <typename> class E, typename A, bool OUT> void real(const char* name, bool gsl) { engine<E<A>, A, OUT>(name, gsl, [](double dt, double r, double a, int lev) { return E<A>(dt, lev, r, a); }); }
static void engines() {
  using namespace cppqedutils; switch (sim::draw(4)) { case 0: real<ODE_EngineBoost, DArray<1>, false>("real-rkck", false); break; case 1: real<ODE_EngineBoost, CArray<1>, false>("complex-rkck", false); break; case 2: real<ODE_EngineGSL, DArray<1>, false>("real-gsl", true); break; default: real<ODE_EngineGSL, CArray<1>, false>("complex-gsl", true); } }
SIM_PROPERTY(P07, engines);
