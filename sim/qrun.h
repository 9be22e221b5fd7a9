// Whole runs of quantum trajectories, as a script starts them: parameters from a command line, evolve(), output and state files, in a process of their own.
#pragma once
#include "drvcommon.h"
#include "qlaw.h"
#include <malloc.h>
namespace qr {
using namespace ql; using ql::kindName; using qm::describe; using drv::RunCfg;
struct RefTraj { std::function<double()> time, did; std::function<void(double)> go, adv; std::function<std::vector<double>()> look; double getTime() const { return time(); } double getDtDid() const { return did(); } void step(double d, std::ostream&) { go(d); } };
template <int R> RefTraj refOf(Any<R>& a, bool ens) { return {[&] { return a.time(); }, [&] { return a.did(); }, [&](double d) { a.go(d); }, [&a, ens](double d) { if (ens) a.go(d); else { double end = a.time() + d; for (double q; (q = end - a.time()) > 0; ) a.go(q); } }, [&] { return a.look(6, nullptr); }}; }
inline std::vector<double> lineOf(const RefTraj& t) { std::vector<double> v{t.time(), t.did()}; auto a = t.look(); v.insert(v.end(), a.begin(), a.end()); return v; }

// the schedule of the run, independently of the driver
struct Expect { bool nothing = false, stopped = false, open = false; std::vector<std::vector<double>> lines; size_t snaps = 0; };
// automatic stopping: the last line agrees with the mean of the ones before it; open: rounding decides
inline bool settled(Expect& e, const RunCfg& r) { size_t N = r.asRep, k = e.lines.size() - 1; if (!N || k < N + 1 || e.lines[k].size() < 3) return false; auto val = [&](size_t l, size_t i) { double v = e.lines[l][i]; return std::fabs(v) < r.asAbs ? r.asAbs : v; };
  double worst = 0; for (size_t i = 2; i < e.lines[k].size(); ++i) { double m = 0; for (size_t q = 1; q <= N; ++q) m += val(k - q, i) / double(N); worst = std::max(worst, std::fabs(m - val(k, i)) / (std::fabs(m) + std::fabs(val(k, i)))); } if (std::fabs(worst - r.asEps) < 1e-6 * r.asEps) e.open = true; return worst < r.asEps; }
inline Expect schedule(RefTraj& ref, const RunCfg& r, bool continuing) {
  Expect e; double t0 = ref.time(), end = r.mode == drv::NDT ? t0 + double(r.NDt) * r.Dt : r.T; if (end <= t0) { e.nothing = true; return e; }
  long k = 0; bool lastSaved = false, lastStreamed = false;
  auto point = [&] { bool snap = r.sdf && k % long(r.sdf) == 0 && (k > 0 || (r.first && !continuing)); if (snap) ++e.snaps; lastSaved = snap; if (k > 0 || !continuing) { e.lines.push_back(lineOf(ref)); lastStreamed = true; if (settled(e, r)) e.stopped = true; } ++k; };
  point();
  if (r.mode == drv::DC) { long s = 0; while (!e.stopped && ref.time() < end) { ref.go(end - ref.time()); lastSaved = lastStreamed = false; if (++s % r.dc == 0) point(); SIM_CHECK(s < 40000, "no-progress", "more than 40000 steps in a run"); } }
  else if (r.mode == drv::DT) while (!e.stopped && ref.time() < end) { ref.adv(std::min(r.Dt, end - ref.time())); point(); }
  else for (long i = 0; !e.stopped && i < r.NDt; ++i) { ref.adv(r.Dt); point(); }
  if (!lastStreamed) e.lines.push_back(lineOf(ref)); if (!lastSaved) ++e.snaps; return e; }

inline std::vector<std::string> cli(const RunCfg& r, const Set& s, int kind) { auto a = drv::cli(r); static const char* ev[] = {"single", "master", "ensemble"};
  std::vector<std::string> more{"--evol", ev[kind], "--eps", drv::g17(s.epsRel), "--epsAbs", drv::g17(s.epsAbs), "--dpLimit", drv::g17(s.dpLimit), "--overshootTolerance", drv::g17(s.over), "--logLevel", std::to_string(s.log), "--seed", std::to_string(s.seed), "--prngStream", std::to_string(s.stream), "--nTraj", std::to_string(s.nTraj), "--nBins", std::to_string(s.nBins)};
  if (s.ems) { std::string e; for (int b : {4, 2, 1}) e += s.ems & b ? '1' : '0'; more.push_back("--ems"); more.push_back(e); }
  a.insert(a.end(), more.begin(), more.end());
  // the order of options does not matter; some are given twice, of which the last counts
  std::vector<std::vector<std::string>> w; for (size_t i = 1; i < a.size(); ++i) if (a[i].compare(0, 2, "--") == 0) w.push_back({a[i]}); else w.back().push_back(a[i]); sim::Prng p(r.order); for (size_t i = 0; r.order && i + 1 < w.size(); ++i) std::swap(w[i], w[i + p.below(w.size() - i)]); if (r.order > 50) { static const std::vector<std::vector<std::string>> first{{"--T", "77"}, {"--Dt", ".001"}, {"--seed", "3"}, {"--evol", "master"}, {"--no_streamInfo"}, {"--eps", "1e-2"}, {"--logLevel", "1"}, {"--nTraj", "17"}, {"--dpLimit", ".5"}}; w.insert(w.begin(), first[p.below(first.size())]); }
  std::vector<std::string> b{a[0]}; for (auto& x : w) b.insert(b.end(), x.begin(), x.end()); return b; }

// how the process is started and what it does: none of this may matter
struct Env { int perturb = 0; size_t ballast = 0; bool rvalue = false, density = false; };
struct Report { std::vector<std::vector<double>> returned; std::vector<double> state; std::string out; };
template <int R> std::string process(const Cfg& c, const RunCfg& r, const Set& s, int kind, const Vec& psi0, const Mat& rho0, const Env& env) {
  mallopt(M_PERTURB, env.perturb); std::vector<char> ballast(env.ballast); Model<R> m = build<R>(c); parameters::Table table; evolution::Pars<> p(table); auto args = cli(r, s, kind); std::vector<char*> av; for (auto& x : args) av.push_back(x.data()); parameters::update(table, int(av.size()), av.data(), "--");
  std::stringbuf cap; std::streambuf* old = nullptr; if (r.file.empty()) old = std::cout.rdbuf(&cap); evolution::TemporalStreamedArray res; std::vector<double> st; using V = typename Part<R>::V;
  if (env.density && kind == MASTER) { auto rho = toRho<R>(m.dims, rho0); res = evolveMaster<cppqedutils::ODE_EngineBoost, V>(rho, m.sys, p, r.stream, r.ret); st = bits(matOf<R>(rho)); }
  else { auto psi = toState<R>(m.dims, psi0); if (env.rvalue) res = evolve<V>(toState<R>(m.dims, psi0), m.sys, p, r.stream, r.ret); else { res = evolve<V>(psi, m.sys, p, r.stream, r.ret); st = bits(toVec<R>(psi.getArray())); } }
  if (old) std::cout.rdbuf(old); sim::Packer k; k.pod<uint64_t>(res.size()); for (auto& l : res) k.vec(drv::flatReturn(std::get<0>(l), std::get<1>(l), std::get<2>(l))); k.vec(st); k.str(cap.str()); return k.b; }
inline Report parse(const std::string& b) { Report r; sim::Unpacker u(b); uint64_t n = u.pod<uint64_t>(); for (uint64_t i = 0; i < n && !u.end(); ++i) r.returned.push_back(u.vec()); r.state = u.vec(); r.out = u.str(); return r; }

// a state of somebody else's making: only the array (and a time that does not count)
template <typename A> void arrayOnly(const std::string& file, A a, int rank, double t, std::string& text) { std::ostringstream o(std::ios::binary); { cppqedutils::oarchive ar(o); ar & cppqedutils::trajectory::SerializationMetadata{"CArray", cppqedutils::trajectory::SerializationMetadata::ARRAY_ONLY, rank} & a & t; } auto f = cppqedutils::trajectory::openStateFileWriting(file); std::string b = o.str(); text = std::to_string(b.size()) + b; f->write(text.data(), text.size()); cppqedutils::trajectory::closeStateFileWriting(*f); }

template <int R> void runs() {
  int kind = int(sim::draw(3)); Cfg c = drawFor<R>(kind == MASTER, false); Model<R> m = build<R>(c); Vec psi; Mat rho; initial<R>(m, psi, rho); Set s = drawSet(); s.epsRel = sim::pick(std::vector<double>{1e-6, 1e-4}); if (R > 1 && kind != SINGLE) s.ems = int(sim::draw(8)); bool density = kind == MASTER && sim::draw(2); if (!density) rho = psi * psi.adjoint();
  std::string file = sim::scratch() + "/run.dat", state = file + ".state", sum = std::string(kindName(kind)) + " " + describe(c); sim::setSummary(sum); sim::shape(sum); bool toFile = sim::draw(3) != 2; unsigned n = toFile ? 1 + unsigned(sim::draw(3)) : 1; double now = 0; std::string prevState, init, initText; size_t snaps = 0; Vec psiGiven = psi; Mat rhoGiven = rho;
  if (sim::chance(1, 4)) { init = sim::scratch() + "/array.state"; if (kind == MASTER) arrayOnly(init, toRho<R>(m.dims, rho).getArray(), 2 * R, 3., initText); else arrayOnly(init, toState<R>(m.dims, psi).getArray(), R, 3., initText); Mat q; initial<R>(m, psiGiven, q); rhoGiven = density ? q : Mat(psiGiven * psiGiven.adjoint()); sim::count("probe:array-only-initial"); }
  for (unsigned q = 0; q < n; ++q) {
    RunCfg r = drv::drawRun(now); r.order = sim::draw(100); r.T = now + sim::pick(std::vector<double>{.3, .5, .11, .8}); r.NDt = 1 + sim::draw(4); if (r.Dt < .05) r.Dt = .05; if (r.Dt > .3 && r.mode == drv::NDT) r.Dt = .2; r.init = init; if (toFile) r.file = file; else r.stream = !sim::chance(1, 4); if (kind == ENSEMBLE && r.mode == drv::DC) r.mode = drv::DT;
    if (sim::chance(1, 3)) { r.asRep = 1 + unsigned(sim::draw(3)); r.asEps = sim::pick(std::vector<double>{.05, .3, .01, 2e-3}); r.asAbs = sim::pick(std::vector<double>{1e-3, .1, 1e-2}); r.T = now + 1.2; if (r.Dt > .2) r.Dt = .1; r.NDt = 12; }
    Set sq = s; Env env; env.perturb = int(sim::draw(3)) * 85; env.ballast = sim::draw(3) * 100000; env.rvalue = sim::chance(1, 4); env.density = density; if (q) { sq.log = int(sim::draw(5)); if (sim::draw(2)) { sq.seed += 1 + sim::draw(50); sq.stream += sim::draw(4); } }
    sim::DiskPlan plan; if (sim::chance(1, 4)) { plan.shortW = 2 + unsigned(sim::draw(3)); plan.shortR = unsigned(sim::draw(4)); plan.eintr = unsigned(sim::draw(2)) * 5; plan.seed = sim::draw(1000); }
    std::string before = sim::slurp(file); bool continuing = toFile && !before.empty(); std::string what = sum + (r.mode == drv::DT ? " Dt-mode" : r.mode == drv::NDT ? " NDt-mode" : " dc-mode") + " session " + std::to_string(q) + ": ";
    auto o = sim::session(plan, [&] { return process<R>(c, r, sq, kind, psiGiven, rhoGiven, env); }, 60000); if (!init.empty() && kind == ENSEMBLE) { SIM_CHECK(o.kind == sim::Outcome::Threw, "array-only-ensemble", what << "an ensemble started from a single array " << o.kindName()); return; } if (o.kind == sim::Outcome::Threw && thermalDrawn() && strstr(o.what.c_str(), "Infinite detected")) { sim::count("probe:cutoff-reached"); return; }
    SIM_CHECK(o.kind == sim::Outcome::Returned, "run-failed", what << o.kindName() << " " << o.what); Report rep = parse(o.payload); if (o.disk.shortW) sim::count("fault:short-write", o.disk.shortW); if (o.disk.eintr) sim::count("fault:eintr", o.disk.eintr);
    Model<R> mr = build<R>(c); auto ref = make<R>(kind, mr, rhoGiven, psiGiven, sq); if (continuing) ref->restore(prevState); else if (!init.empty()) { ref->restore(initText); SIM_CHECK(sim::sameBits(ref->state(), kind == MASTER ? bits(rho) : bits(psi)) && ref->time() == 0, "array-only-initial", what << "the state read from an archive holding only an array differs from that array, or its time is not zero"); } RefTraj rt = refOf<R>(*ref, kind == ENSEMBLE); double t0 = rt.time(); Expect e = schedule(rt, r, continuing); now = rt.time(); if (e.open) { sim::count("probe:stop-undecided"); return; } if (e.stopped) sim::count("probe:stopped-automatically"); sim::addSimTime(now - t0); SIM_EVENT(what << "t=" << now << " lines " << e.lines.size()); sim::eventBits("s", ref->state());
    std::string after = sim::slurp(file), fresh; if (toFile) { SIM_CHECK(after.compare(0, before.size(), before) == 0, "output-rewritten", what << "what earlier sessions had written has changed"); fresh = after.substr(before.size()); } else fresh = rep.out;
    if (e.nothing) { SIM_CHECK(fresh.empty(), "touched-files", what << "nothing was to be done"); continue; }
    if (toFile || r.stream) { std::string line; for (auto& x : cli(r, sq, kind)) line += (line.empty() ? "" : " ") + x; bool told = fresh.find(line + "\n") != std::string::npos, cont = fresh.find("Continuing from time") != std::string::npos; SIM_CHECK(told == (r.info && !continuing), "header", what << (told ? "an unasked header" : "the header does not tell the command line")); SIM_CHECK(cont == (r.info && continuing), "header", what << (cont ? "a session claims to continue" : "a continued session does not say so")); if (told) sim::count("probe:header"); }
    if (toFile || r.stream) SIM_CHECK((fresh.find("Stopping criterion") != std::string::npos) == e.stopped, "stop-announced", what << (e.stopped ? "the output has settled, but the run does not say that it stopped" : "the run says that it stopped although the output has not settled"));
    if (!r.stream && !toFile) SIM_CHECK(fresh.empty(), "null-stream", what << "output although streaming is switched off");
    else { auto p = drv::parseData(fresh); SIM_CHECK(p.lines.size() == e.lines.size(), "line-count", what << p.lines.size() << " data lines instead of " << e.lines.size()); std::string why; for (size_t i = 0; i < p.lines.size(); ++i) SIM_CHECK(drv::lineMatches(p.lines[i], e.lines[i], r.precision, why), "line-content", what << "data line " << i << " " << why); }
    if (r.ret) { size_t k = rep.returned.size(); SIM_CHECK(k == e.lines.size() || (r.mode == drv::DC && !e.stopped && k + 1 == e.lines.size()), "returned-values", what << k << " values returned for " << e.lines.size() << " lines"); for (size_t i = 0; i < k; ++i) SIM_CHECK(sim::sameBits(rep.returned[i], e.lines[i]), "returned-values", what << "returned line " << i << " differs from what the trajectory displays"); } else SIM_CHECK(rep.returned.empty(), "returned-values", what << "values returned although not asked for");
    if (!rep.state.empty()) { if (kind == SINGLE || (kind == MASTER && density)) SIM_CHECK(sim::sameBits(rep.state, ref->state()), "evolved-state", what << "the state handed over to evolve is not the evolved one afterwards, it differs by " << dist(rep.state, ref->state())); else SIM_CHECK(sim::sameBits(rep.state, bits(psiGiven)), "evolved-state", what << "the state vector an ensemble or Master equation started from has changed"); sim::count("probe:evolved-state"); }
    if (toFile) { // the last saved state is that of the trajectory
      std::string last; size_t found = 0; { auto is = cppqedutils::trajectory::openStateFileReading(state); while ((is->peek(), !is->eof())) { std::streamsize len; if (!(*is >> len)) break; std::string b(len, 0); is->read(&b[0], len); last = std::to_string(len) + b; ++found; } }
      SIM_CHECK(found == snaps + e.snaps, "snapshot-count", what << found << " saved states instead of " << snaps + e.snaps); snaps = found; SIM_CHECK(last == ref->bytes(), "saved-state", what << "the state saved at the end is not that of the trajectory"); prevState = last; if (continuing) sim::count("probe:continued-session"); }
    sim::count(std::string("probe:mode:") + kindName(kind)); if (e.lines.size() > 1) sim::nontrivial();
  }
}
}
