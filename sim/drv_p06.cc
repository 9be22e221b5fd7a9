#include "drvcommon.h"
using namespace drv;

// P06: automatic stopping. The reference: a line is settled if each of its values agrees with the mean of the N preceding lines of the session
// within the relative precision, values below the absolute one counting as that.
namespace {
struct Stop {};
struct Full { std::vector<std::vector<double>> lines; std::vector<bool> judged; std::vector<std::vector<double>> snaps; std::vector<double> last; bool nothing = false; };
template <typename TRAJ> Full modelUpTo(TRAJ& ref, const RunCfg& r, bool continuing, size_t maxLines) {
  Full e; double t0 = ref.getTime(), end = r.mode == NDT ? t0 + double(r.NDt) * r.Dt : r.T; if (end <= t0) { e.nothing = true; e.last = stateOf(ref); return e; }
  long k = 0; bool saved = false, streamed = false;
  auto point = [&] { bool snap = r.sdf && k % long(r.sdf) == 0 && (k > 0 || (r.first && !continuing)); if (snap) e.snaps.push_back(stateOf(ref)); saved = snap; bool show = k > 0 || !continuing; ++k;
    if (show) { e.lines.push_back(stateOf(ref)); e.judged.push_back(true); streamed = true; if (e.lines.size() == maxLines) throw Stop(); } };
  try { point();
    if (r.mode == DC) { long s = 0; while (ref.getTime() < end) { ref.step(end - ref.getTime(), nul()); saved = streamed = false; if (++s % r.dc == 0) point(); SIM_CHECK(s < 400000, "no-progress", "more than 400000 steps in a run"); } }
    else if (r.mode == DT) { while (ref.getTime() < end) { cppqedutils::advance(ref, std::min(r.Dt, end - ref.getTime()), nul()); saved = streamed = false; point(); SIM_CHECK(k < 100000, "no-progress", "more than 100000 intervals in a run"); } }
    else for (long i = 0; i < r.NDt; ++i) { cppqedutils::advance(ref, r.Dt, nul()); saved = streamed = false; point(); }
  } catch (const Stop&) {}
  if (!streamed) { e.lines.push_back(stateOf(ref)); e.judged.push_back(false); }
  if (!saved) e.snaps.push_back(stateOf(ref)); e.last = stateOf(ref); return e; }

// how far line k is from the mean of the N before it: the largest relative difference over the values. cplx: values come in pairs.
// slack=+1 (-1): the largest (smallest) this can come out at if the mean is kept up to date incrementally, so that rounding scales with the largest value of the past
double unsettled(const Full& e, size_t k, unsigned N, double epsAbs, bool cplx, int slack) {
  double worst = 0; size_t w = cplx ? 2 : 1, n = (e.lines[k].size() - 2) / w;
  auto val = [&](size_t l, size_t i) { dcomp v = cplx ? dcomp(e.lines[l][2 + 2 * i], e.lines[l][3 + 2 * i]) : dcomp(e.lines[l][2 + i]); return std::abs(v) < epsAbs ? dcomp(epsAbs) : v; };
  for (size_t i = 0; i < n; ++i) { dcomp m = 0; double past = 0; for (unsigned q = 1; q <= N; ++q) m += val(k - q, i); m /= double(N); for (size_t q = 0; q < k; ++q) past = std::max(past, std::abs(val(q, i)));
    dcomp v = val(k, i); double r = slack * 4e-16 * past * double(k + 1); worst = std::max(worst, std::max(0., std::abs(m - v) + r) / std::max(1e-300, std::abs(m) + std::abs(v) - r)); }
  return worst; }
}

static void autostop() {
  TrajCfg c = drawTraj(3); std::string file = sim::scratch() + "/run.dat", state = file + ".state"; unsigned n = 1 + unsigned(sim::draw(2)); double now = 0; std::vector<std::vector<double>> snapsSoFar; std::string summary; bool cplx = c.kind == 2;
  for (unsigned s = 0; s < n; ++s) {
    RunCfg r = drawRun(now); r.file = file; r.ret = false; r.asRep = unsigned(sim::draw(6)); r.asEps = std::vector<double>{.01, 1e-6, .3, .05, 1e-3, 1e-9}[sim::draw(6)]; r.asAbs = std::vector<double>{1e-12, 1e-3, .1, 1e-6}[sim::draw(4)]; r.Dt = std::vector<double>{.25, .1, .5, 1., 2.}[sim::draw(5)]; r.NDt = 1 + long(sim::draw(40)); r.T = now + std::vector<double>{10., 2., 25., 5.}[sim::draw(4)];
    std::string before = sim::slurp(file), sbefore = sim::slurp(state); bool continuing = !before.empty();
    auto o = sim::session({}, [&] { return processBody(c, r); }); std::string d = describe(c, r) + " autostop " + std::to_string(r.asRep) + " eps " + g17(r.asEps) + " abs " + g17(r.asAbs); SIM_EVENT("session " << s << " " << d << " -> " << o.kindName() << " " << o.what);
    SIM_CHECK(o.kind == sim::Outcome::Returned, "run-failed", "fault-free session " << s << " " << o.kindName() << " " << o.what << " [" << d << "]"); Report rep = parseReport(o.payload); for (double x : rep.last) sim::eventBits("last", x);
    std::string after = sim::slurp(file); SIM_CHECK(after.compare(0, before.size(), before) == 0, "output-rewritten", "session " << s << " changed what earlier sessions had written"); Parsed p = parseData(after.substr(before.size())); size_t L = p.lines.size();
    auto at = [&](size_t most) { return withTraj(c, [&](auto& ref) { if (continuing) { sim::spit(sim::scratch() + "/prev.state", sbefore); auto is = cppqedutils::trajectory::openStateFileReading(sim::scratch() + "/prev.state"); while ((is->peek(), !is->eof())) cppqedutils::trajectory::readViaSStream(ref, is); } return modelUpTo(ref, r, continuing, most); }); };
    Full full = at(size_t(-1)); SIM_CHECK(L <= full.lines.size() && L >= 1, "line-count", "session " << s << " wrote " << L << " data lines; without stopping there are " << full.lines.size() << " [" << d << "]");
    unsigned N = r.asRep; bool stopped = L < full.lines.size(), announced = after.find("Stopping criterion", before.size()) != std::string::npos;
    if (stopped) { SIM_CHECK(N, "stopped-unasked", "the run stopped after " << L << " lines although automatic stopping is off [" << d << "]"); SIM_CHECK(L >= N + 1, "stopped-early", "the run stopped at line " << L << ", before " << N << " lines to compare with [" << d << "]");
      double q = unsettled(full, L - 1, N, r.asAbs, cplx, -1); SIM_CHECK(q < r.asEps * (1 + 1e-6) + 1e-14, "stopped-early", "the run stopped at line " << L << ", which differs from the mean of the " << N << " before it by " << q << " [" << d << "]"); sim::count("probe:stopped"); }
    if (N) for (size_t k = N + 1; k + 1 < L; ++k) { if (!full.judged[k]) continue; double q = unsettled(full, k, N, r.asAbs, cplx, 1); SIM_CHECK(q > r.asEps * (1 - 1e-6) - 1e-14, "missed-stop", "the run went on after line " << k + 1 << " which differs from the mean of the " << N << " before it by only " << q << " [" << d << "]"); }
    SIM_CHECK(!announced || N, "stopped-unasked", "the run announces a stop although automatic stopping is off"); SIM_CHECK(!stopped || announced, "unannounced", "the run stopped early without saying so");
    Full e = stopped ? at(L) : full; SIM_CHECK(e.lines.size() == L, "line-count", "model"); std::string why;
    for (size_t i = 0; i < L; ++i) SIM_CHECK(lineMatches(p.lines[i], e.lines[i], r.precision, why), "line-content", "session " << s << " data line " << i << " " << why << " [" << d << "]");
    SIM_CHECK(sim::sameBits(e.last, rep.last), "final-state", "the trajectory ends in another state than that of its last line [" << d << "]"); now = rep.last[0];
    Snaps sn = readSnaps(c, state); SIM_CHECK(sn.ok && sn.v.size() >= snapsSoFar.size(), "state-unreadable", "state file: " << sn.why); std::vector<std::vector<double>> added(sn.v.begin() + snapsSoFar.size(), sn.v.end());
    SIM_CHECK(added.size() == e.snaps.size(), "snapshot-count", "session " << s << " saved " << added.size() << " snapshots instead of " << e.snaps.size() << " [" << d << "]"); for (size_t i = 0; i < added.size(); ++i) SIM_CHECK(sim::sameBits(added[i], e.snaps[i]), "snapshot-content", "session " << s << " snapshot " << i << " is not the state at that point [" << d << "]");
    snapsSoFar = sn.v; sim::addSimTime(now); sim::shape(d); if (N && full.lines.size() > N + 1) sim::nontrivial(); if (!c.script.empty()) sim::count("fault:step_rejection_script"); if (summary.size() < 300) summary += (s ? " ; then " : "") + d + " -> " + std::to_string(L) + " of " + std::to_string(full.lines.size()) + " lines"; }
  sim::setSummary(summary);
}
SIM_PROPERTY(P06, autostop);
