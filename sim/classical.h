// Classical trajectories (the library's own Simulated<> driven by real or scripted ODE steppers) for the driver properties.
#pragma once
#include "simkit.h"
#include "Simulated.h"
#include "ODE_GSL.h"
#include <memory>
#include <cmath>

// ------------------------------------------------------------ the ODE-stepper seam: the simulator decides every rejection and step size
// The stepper's whole state is its position in a script; the position is part of the saved trajectory state.
struct ScriptStepper {
  using time_type = double;
  std::shared_ptr<const std::vector<unsigned>> script; uint64_t pos = 0;
  // code: 0 accept, same size; 1 accept, grow x2; 2 accept, shrink x0.5; 3 reject, halve; 4 accept, grow x5; 5 reject, x0.2; 6 accept x1.1; 7 accept x0.3
  template <typename System, typename State> auto try_step(System sys, State&& y, double& t, double& dt) {
    if (pos > 2000000) sim::fail("no-progress", "more than 2000000 ODE attempts");
    unsigned c = script->empty() ? 0 : (*script)[pos % script->size()]; ++pos;
    std::decay_t<State> d(y.copy()); sys(y, d, t);
    if (std::fabs(dt) < .01 && (c == 3 || c == 5)) c = 1; // (a real stepper accepts small enough steps, too)
    if (c == 3) { dt *= .5; return boost::numeric::odeint::fail; }
    if (c == 5) { dt *= .2; return boost::numeric::odeint::fail; }
    y = y + dt * d; t += dt;
    static const double g[] = {1., 2., .5, 1., 5., 1., 1.1, .3};
    dt *= g[c & 7]; if (std::fabs(dt) < .005 && c != 0) dt = dt < 0 ? -.005 : .005; if (std::fabs(dt) > 10.) dt = dt < 0 ? -10. : 10.;
    return boost::numeric::odeint::success;
  }
};
namespace cppqedutils::ode_engine {
template <> struct MakeControlledErrorStepper<ScriptStepper> {
  static auto _(std::shared_ptr<const std::vector<unsigned>> s) { return ControlledErrorStepperWithParameters<ScriptStepper>{ScriptStepper{s, 0}, 0., 0.}; }
};
template <> inline const std::string StepperDescriptor<ScriptStepper> = "scripted stepper";
template <> struct SerializeControlledErrorStepper<ScriptStepper> { template <typename A> static A& _(A& ar, ScriptStepper& s) { return ar & s.pos; } };
}

// the classical system: a damped, driven set of coupled oscillators (autonomous or driven)
struct Lin { double w, k, drive, wd;
  template <typename A> void operator()(const A& y, A& dy, double t) const { int n = y.extent(0); for (int i = 0; i < n; ++i) dy(i) = -k * (i + 1) * y(i) + w * y((i + 1) % n) * (i % 2 ? -1. : 1.) + drive * cos(wd * t); }
};

struct TrajCfg { int kind = 0; int dim = 1; Lin lin{1, .1, 0, 1}; double dtInit = .1, eps = 1e-6, epsAbs = 1e-12; int logLevel = 0; std::vector<unsigned> script; std::vector<double> y0; };
inline const char* kindName(int k) { static const char* n[] = {"scripted", "real-rkck", "complex-rkck", "real-gsl"}; return n[k]; }

inline TrajCfg drawTraj(int kinds = 3) {
  TrajCfg c; c.kind = int(sim::draw(kinds)); c.dim = 1 + int(sim::draw(3)); c.lin = Lin{double(sim::draw(5)) * .7, .05 + .15 * double(sim::draw(4)), sim::chance(1, 3) ? .5 : 0., 1.3};
  c.dtInit = std::vector<double>{.1, .01, .03125, .7, 3., .0625}[sim::draw(6)]; c.logLevel = sim::chance(1, 4) ? int(sim::draw(6)) : 0;
  if (c.kind == 0) { unsigned n = unsigned(sim::draw(8)); unsigned run = 0; for (unsigned i = 0; i < n; ++i) { unsigned v = unsigned(sim::draw(8)); if (v == 3 || v == 5) { if (++run > 3) v = 0; } if (v != 3 && v != 5) run = 0; c.script.push_back(v); } bool any = n == 0; for (auto v : c.script) any |= (v != 3 && v != 5); if (!any) c.script.push_back(1); }
  for (int i = 0; i < c.dim; ++i) c.y0.push_back(1. - .25 * double(sim::draw(8)));
  return c;
}

template <typename F> auto withTraj(const TrajCfg& c, F&& f) {
  using namespace cppqedutils;
  if (c.kind == 0) { DArray<1> y(c.dim); for (int i = 0; i < c.dim; ++i) y(i) = c.y0[i]; auto sc = std::make_shared<const std::vector<unsigned>>(c.script);
    auto t = simulated::make<ode_engine::Base<ScriptStepper>>(std::move(y), c.lin, {"x"}, c.dtInit, c.logLevel, sc); return f(t); }
  if (c.kind == 1) { DArray<1> y(c.dim); for (int i = 0; i < c.dim; ++i) y(i) = c.y0[i]; auto t = simulated::makeBoost(std::move(y), c.lin, {"x"}, c.dtInit, c.logLevel, c.eps, c.epsAbs); return f(t); }
  if (c.kind == 2) { CArray<1> y(c.dim); for (int i = 0; i < c.dim; ++i) y(i) = dcomp(c.y0[i], .3 * i - .2); auto t = simulated::makeBoost(std::move(y), c.lin, {"x"}, c.dtInit, c.logLevel, c.eps, c.epsAbs); return f(t); }
  DArray<1> y(c.dim); for (int i = 0; i < c.dim; ++i) y(i) = c.y0[i]; auto t = simulated::make<ODE_EngineGSL<DArray<1>>>(std::move(y), c.lin, {"x"}, c.dtInit, c.logLevel, c.eps, c.epsAbs); return f(t);
}

inline void flat(std::vector<double>& v, double d) { v.push_back(d); }
inline void flat(std::vector<double>& v, const dcomp& d) { v.push_back(d.real()); v.push_back(d.imag()); }
template <typename A> std::vector<double> flatten(const A& a) { std::vector<double> v; for (auto i = a.begin(); i != a.end(); ++i) flat(v, *i); return v; }

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
inline std::ostream& nul() { static NullBuf b; static std::ostream o(&b); return o; }

template <typename T> std::vector<double> stateOf(const T& t) { std::vector<double> r; r.push_back(t.getTime()); r.push_back(t.getDtDid()); auto s = t.stream(nul(), 6); auto v = flatten(std::get<1>(s)); r.insert(r.end(), v.begin(), v.end()); return r; }
