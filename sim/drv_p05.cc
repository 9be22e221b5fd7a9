#include "drvcommon.h"
using namespace drv;

// P05: the output/snapshot schedule of every run, fresh or continued
static void schedule() {
  TrajCfg c = drawTraj(3); std::string file = sim::scratch() + "/run.dat", state = file + ".state";
  bool toFile = !sim::chance(1, 6); unsigned n = toFile ? 1 + unsigned(sim::draw(3)) : 1;
  std::string summary;
  // optionally start from a state saved by another run
  std::string init; 
  if (sim::chance(1, 5)) {
    TrajCfg c2 = c; RunCfg r = drawRun(0); r.file = sim::scratch() + "/seed.dat"; auto o = sim::session({}, [&] { return processBody(c2, r); });
    SIM_CHECK(o.kind == sim::Outcome::Returned, "run-failed", "fault-free run " << o.kindName() << " " << o.what << " [" << describe(c, r) << "]"); init = r.file + ".state"; sim::count("probe:initial-file");
  }
  double now = 0;
  std::vector<std::vector<double>> snapsSoFar;
  for (unsigned s = 0; s < n; ++s) {
    RunCfg r = drawRun(now); if (toFile) r.file = file; else r.stream = !sim::chance(1, 4); r.init = init;
    if (s && sim::chance(1, 6)) { r.mode = sim::draw(2) ? int(DC) : int(DT); r.T = now * (sim::draw(2) ? 1. : .5); sim::count("probe:target-already-reached"); }
    if (!s && n == 1 && sim::chance(1, 12)) { r.mode = DT; r.T = 0; sim::count("probe:T-zero"); }
    std::string before = sim::slurp(file), sbefore = sim::slurp(state);
    auto o = sim::session({}, [&] { return processBody(c, r); });
    SIM_EVENT("session " << s << " " << describe(c, r) << " -> " << o.kindName() << " " << o.what);
    SIM_CHECK(o.kind == sim::Outcome::Returned, "run-failed", "fault-free session " << s << " " << o.kindName() << " " << o.what << " [" << describe(c, r) << "]");
    Report rep = parseReport(o.payload); for (double d : rep.last) sim::eventBits("last", d);
    std::string after = sim::slurp(file), safter = sim::slurp(state);
    std::string fresh;
    if (toFile) { SIM_CHECK(after.compare(0, before.size(), before) == 0, "output-rewritten", "session " << s << " changed what earlier sessions had written to the output file"); fresh = after.substr(before.size()); } else fresh = rep.stdoutText;
    bool continuing = toFile && !before.empty();
    // the model starts where the library says the saved state is
    Expect e = withTraj(c, [&](auto& ref) {
      std::string from = continuing ? state : init; 
      if (!from.empty()) { // snapshot list before this session
        auto is = cppqedutils::trajectory::openStateFileReading(continuing ? (sim::spit(sim::scratch() + "/prev.state", sbefore), sim::scratch() + "/prev.state") : init);
        while ((is->peek(), !is->eof())) cppqedutils::trajectory::readViaSStream(ref, is);
      }
      double t0 = ref.getTime(); Expect x = model(ref, r, continuing); sim::addSimTime(ref.getTime() - t0); now = ref.getTime();
      SIM_CHECK(sim::sameBits(stateOf(ref), rep.last), "final-state", "the trajectory ends in a different state than stepping it directly [" << describe(c, r) << "]");
      return x;
    });
    if (e.nothing) { SIM_CHECK(after == before && safter == sbefore, "touched-files", "the target time had been reached already, but the files changed"); SIM_CHECK(rep.returned.empty(), "touched-files", "the target time had been reached already, but values were returned"); continue; }
    Parsed p = parseData(fresh);
    std::string why;
    if (!toFile && !r.stream) { SIM_CHECK(fresh.empty(), "null-stream", "output appeared although streaming was switched off"); }
    else {
      SIM_CHECK(p.lines.size() == e.lines.size(), "line-count", "session " << s << " wrote " << p.lines.size() << " data lines instead of " << e.lines.size() << " [" << describe(c, r) << "]");
      for (size_t i = 0; i < p.lines.size(); ++i) SIM_CHECK(lineMatches(p.lines[i], e.lines[i], r.precision, why), "line-content", "session " << s << " data line " << i << " " << why << " [" << describe(c, r) << "]");
      // stated independently of the model: strictly increasing times, last line at the end time
      if (r.T != 0 || r.mode == NDT) { double target = r.mode == NDT ? e.lines.back()[0] : r.T; SIM_CHECK(closeTo(p.lines.back()[0], target, 6), "end-time", "last data line at " << p.lines.back()[0] << " instead of the end time " << target); SIM_CHECK(std::fabs(rep.last[0] - target) <= 4e-16 * (1 + std::fabs(target)) || r.mode == NDT, "end-time", "trajectory stops at " << rep.last[0] << " instead of " << target); }
      if (r.mode != DC && e.lines.size() > 1) for (size_t i = continuing ? 0 : 1; i + 1 < e.lines.size(); ++i) { if (r.mode == DT && std::fabs(e.lines[i][0] - r.T) < 1e-9 * (1 + std::fabs(r.T))) continue; /* the last interval may be shorter, with a remainder of rounding after it */ double step = e.lines[i][0] - (i ? e.lines[i - 1][0] : e.lines[0][0] - r.Dt); SIM_CHECK(std::fabs(step - r.Dt) < 1e-9 * (1 + std::fabs(e.lines[i][0])), "interval", "lines " << i << " is " << step << " after the previous one instead of Dt=" << r.Dt); }
    }
    if (r.T == 0 && r.mode != NDT) { SIM_CHECK(safter == sbefore, "t-zero", "T=0 wrote a state"); }
    else if (toFile) {
      Snaps sn = readSnaps(c, state); SIM_CHECK(sn.ok, "state-unreadable", "state file unreadable after a fault-free session: " << sn.why);
      SIM_CHECK(sn.v.size() >= snapsSoFar.size() && std::equal(snapsSoFar.begin(), snapsSoFar.end(), sn.v.begin(), sim::sameBits), "snapshot-lost", "earlier snapshots are gone");
      std::vector<std::vector<double>> added(sn.v.begin() + snapsSoFar.size(), sn.v.end());
      SIM_CHECK(added.size() == e.snaps.size(), "snapshot-count", "session " << s << " saved " << added.size() << " snapshots instead of " << e.snaps.size() << " [" << describe(c, r) << "]");
      for (size_t i = 0; i < added.size(); ++i) SIM_CHECK(sim::sameBits(added[i], e.snaps[i]), "snapshot-content", "session " << s << " snapshot " << i << " (t=" << (added[i].empty() ? 0. : added[i][0]) << ") is not the state of the trajectory at that streaming point (t=" << e.snaps[i][0] << ") [" << describe(c, r) << "]");
      snapsSoFar = sn.v;
    } else SIM_CHECK(!sim::fileExists(".state") , "state-stray", "a state file appeared without an output file name");
    if (r.ret) {
      size_t m = rep.returned.size(), want = e.lines.size(); if (r.T == 0 && r.mode != NDT) want = m;
      SIM_CHECK(m == want || (r.mode == DC && m + 1 == want), "returned-values", "run returned " << m << " lines for " << want << " streamed ones");
      for (size_t i = 0; i < m && (r.T != 0 || r.mode == NDT); ++i) SIM_CHECK(sim::sameBits(rep.returned[i], e.lines[i]), "returned-values", "returned line " << i << " differs from the streamed one");
    } else SIM_CHECK(rep.returned.empty(), "returned-values", "values returned although not asked for");
    sim::shape(describe(c, r)); if (summary.size() < 300) summary += (s ? " ; then " : "") + describe(c, r) + " -> " + std::to_string(e.lines.size()) + " lines, " + std::to_string(e.snaps.size()) + " snapshots";
    if (e.lines.size() > 1) sim::nontrivial(); if (continuing) sim::count("probe:continued-session"); if (!c.script.empty()) sim::count("fault:step_rejection_script");
  }
  sim::setSummary(summary);
}
SIM_PROPERTY(P05, schedule);
