#include "drvcommon.h"
#include <cerrno>
#include <unistd.h>
using namespace drv;
using V = std::vector<double>; using VV = std::vector<V>;

static V loadLast(const TrajCfg& c, const std::string& file) { auto s = readSnaps(c, file); SIM_CHECK(s.ok && !s.v.empty(), "state-unreadable", "cannot read back " << s.why); return s.v.back(); }

// ==================================================================== P01: interrupted and continued == never interrupted
// The reference is one trajectory object that lives through all the sessions in memory and is never saved or loaded.
static void resumeClassical() {
  TrajCfg c = drawTraj(4); std::string file = sim::scratch() + "/run.dat", state = file + ".state"; unsigned n = 2 + unsigned(sim::draw(3)); std::string summary;
  withTraj(c, [&](auto& ref) {
    for (unsigned s = 0; s < n; ++s) {
      RunCfg r = drawRun(ref.getTime()); r.file = file; 
      if (s && sim::chance(1, 3)) { // hand the state over to a new output file instead of continuing the old one
        std::string nf = sim::scratch() + "/hand" + std::to_string(s) + ".dat"; r.file = nf; r.init = state; file = nf; state = nf + ".state"; sim::count("probe:handover-by-initial-file"); }
      std::string before = sim::slurp(r.file);
      sim::DiskPlan plan; if (sim::chance(1, 3)) { plan.shortR = 2; plan.shortW = 3; plan.eintr = 5; plan.seed = sim::draw(1 << 20); }
      auto o = sim::session(plan, [&] { return processBody(c, r); });
      SIM_EVENT("session " << s << " " << describe(c, r) << " -> " << o.kindName() << " " << o.what);
      SIM_CHECK(o.kind == sim::Outcome::Returned, "resume-failed", "session " << s << " of an interrupted run " << o.kindName() << ": " << o.what);
      Report rep = parseReport(o.payload); double t0 = ref.getTime();
      Expect e = model(ref, r, !before.empty()); sim::addSimTime(ref.getTime() - t0);
      V now = stateOf(ref); sim::eventBits("state", now);
      SIM_CHECK(sim::sameBits(now, rep.last), "resume-diverges", "after session " << s << " (" << describe(c, r) << ") the continued trajectory differs from the one that was never interrupted: t=" << rep.last[0] << " x0=" << rep.last[2] << " against t=" << now[0] << " x0=" << now[2]);
      Parsed p = parseData(sim::slurp(r.file).substr(before.size())); std::string why;
      SIM_CHECK(p.lines.size() == e.lines.size(), "resume-output", "session " << s << " wrote " << p.lines.size() << " lines instead of " << e.lines.size());
      for (size_t i = 0; i < p.lines.size(); ++i) SIM_CHECK(lineMatches(p.lines[i], e.lines[i], r.precision, why), "resume-output", "session " << s << " line " << i << " " << why);
      if (c.logLevel > 0) { // the step counters are part of the state
        std::ostringstream want; ref.logOnEnd(want); std::istringstream ws(want.str()); std::string l, text = sim::slurp(r.file);
        while (std::getline(ws, l)) if (!l.empty()) { auto at = text.rfind(l.substr(0, l.find(':'))); SIM_CHECK(at != std::string::npos && text.compare(at, l.size(), l) == 0, "resume-counters", "end-of-run log says '" << (at == std::string::npos ? "" : text.substr(at, text.find('\n', at) - at)) << "' instead of '" << l << "'"); } 
      }
      sim::shape(describe(c, r)); if (summary.size() < 300) summary += (s ? " ; " : "") + describe(c, r); if (s) sim::nontrivial();
    }
  });
  sim::setSummary(summary);
}
SIM_PROPERTY(P01, resumeClassical);

// one uninterrupted process against the same run split at arbitrary streaming points (dyadic Dt: all times exact)
static void splitClassical() {
  TrajCfg c = drawTraj(4); double Dt = std::vector<double>{.25, .125, .5, .0625}[sim::draw(4)]; long N = 3 + long(sim::draw(10)); unsigned sdf = unsigned(sim::draw(3));
  RunCfg one; one.mode = DT; one.Dt = Dt; one.T = Dt * N; one.sdf = sdf; one.precision = 15; one.file = sim::scratch() + "/one.dat";
  auto o = sim::session({}, [&] { return processBody(c, one); }); SIM_CHECK(o.kind == sim::Outcome::Returned, "run-failed", o.kindName() << " " << o.what); Report whole = parseReport(o.payload);
  std::string file = sim::scratch() + "/many.dat"; long at = 0; unsigned parts = 0; Report rep;
  while (at < N) { long step = 1 + long(sim::draw(std::max<long>(1, N / 2))); at = std::min(N, at + step); RunCfg r = one; r.file = file; if (sim::draw(2)) { r.mode = DT; r.T = Dt * at; } else { r.mode = NDT; r.NDt = 0; }
    if (r.mode == NDT) { double from = rep.last.empty() ? 0. : rep.last[0]; r.NDt = at - long(std::lround(from / Dt)); r.T = 0; }
    o = sim::session({}, [&] { return processBody(c, r); }); SIM_EVENT("part to " << at << " " << o.kindName()); SIM_CHECK(o.kind == sim::Outcome::Returned, "resume-failed", "part " << parts << " " << o.kindName() << " " << o.what); rep = parseReport(o.payload); ++parts; }
  sim::eventBits("state", rep.last); sim::addSimTime(one.T);
  SIM_CHECK(sim::sameBits(rep.last, whole.last), "split-diverges", "run split into " << parts << " sessions ends at x0=" << rep.last[2] << ", the uninterrupted one at " << whole.last[2]);
  auto a = parseData(sim::slurp(one.file)).lines, b = parseData(sim::slurp(file)).lines; SIM_CHECK(a.size() == b.size(), "split-output", "split run wrote " << b.size() << " data lines, the uninterrupted one " << a.size());
  for (size_t i = 0; i < a.size(); ++i) SIM_CHECK(a[i] == b[i], "split-output", "data line " << i << " of the split run differs");
  if (parts > 1) sim::nontrivial(); sim::shape(describe(c, one) + std::to_string(parts)); sim::setSummary(describe(c, one) + " split into " + std::to_string(parts));
}
SIM_PROPERTY(P01, splitClassical);

// ==================================================================== P02: crash at any instant of any session
static void crashRecovery() {
  TrajCfg c = drawTraj(3); if (sim::chance(1, 6)) { c.kind = 1; c.dim = 600; c.y0.assign(600, 0.); uint64_t sd = sim::draw(1000); sim::Prng q(sd); for (auto& y : c.y0) y = q.unit(); } // larger state: the compressor writes early
  std::string file = sim::scratch() + "/run.dat", state = file + ".state"; unsigned n = 2 + unsigned(sim::draw(4)); std::string summary;
  bool raw = sim::chance(1, 5);   // an uncompressed state file (the library keeps the format it finds)
  std::string init; V initState; 
  if (sim::chance(1, 4) || raw) { RunCfg r = drawRun(0); r.sdf = 0; r.mode = DT; r.file = sim::scratch() + "/seed.dat"; auto o = sim::session({}, [&] { return processBody(c, r); }); SIM_CHECK(o.kind == sim::Outcome::Returned, "run-failed", o.what); init = r.file + ".state"; initState = loadLast(c, init); }
  VV acked, written;        // snapshots of sessions that reported success / that any session may have written
  std::string stateAck, dataAck; bool everAck = false;
  if (raw) { // decompress the seed into the state file itself: same content, no compression
    auto o = sim::session({}, [&] { auto is = cppqedutils::trajectory::openStateFileReading(init); std::ostringstream b; b << is->rdbuf(); return b.str(); }); SIM_CHECK(o.kind == sim::Outcome::Returned, "state-unreadable", o.what);
    sim::spit(state, o.payload); sim::spit(file, "# started elsewhere\n"); acked = written = {initState}; stateAck = o.payload; dataAck = sim::slurp(file); everAck = true; init.clear(); sim::count("probe:uncompressed-state-file"); }
  for (unsigned s = 0; s < n; ++s) {
    std::string dBefore = sim::slurp(file), sBefore = sim::slurp(state); bool continuing = !dBefore.empty();
    // ---- where would a clean process resume?
    V from; bool refuse = false;
    if (continuing) {
      Snaps sn; if (sim::fileExists(state)) sn = readSnaps(c, state); 
      if (sn.ok && !sn.v.empty()) {
        from = sn.v.back(); 
        bool known = false; for (auto& w : written) known |= sim::sameBits(w, from);
        SIM_CHECK(known, "phantom-state", "after a crash the state file yields a state (t=" << from[0] << ") that no session ever saved");
        SIM_CHECK(!everAck || from[0] >= acked.back()[0], "ack-lost", "after a crash the trajectory resumes at t=" << from[0] << ", before the state acknowledged at t=" << acked.back()[0]);
        SIM_CHECK(!(everAck && sBefore == stateAck) || sim::sameBits(from, acked.back()), "ack-lost", "the last acknowledged state is not what is read back");
      } else { refuse = true; SIM_CHECK(!everAck || sBefore != stateAck, "resume-refused", "the state file holds exactly what was acknowledged, yet it is unreadable: " << sn.why); sim::count("probe:torn-state-refused"); }
    } else if (!init.empty()) from = initState;
    RunCfg r = drawRun(from.empty() ? 0. : from[0]); r.file = file; r.init = init;
    sim::DiskPlan p; bool crash = s + 1 < n && sim::chance(2, 3); 
    if (crash) { // place the crash inside the session: count its operations first in a rehearsal on copies
      if (sim::chance(1, 2)) p.crashOp = 1 + sim::draw(12); else p.crashOp = 1 + sim::draw(60); p.crashNum = unsigned(sim::draw(9));
      if (sim::chance(1, 3)) { // aim at the closing writes: rehearse to learn the number of operations
        RunCfg rr = r; rr.file = sim::scratch() + "/rehearse.dat"; sim::spit(rr.file, dBefore); sim::spit(rr.file + ".state", sBefore); if (dBefore.empty()) { unlink(rr.file.c_str()); unlink((rr.file + ".state").c_str()); }
        auto ro = sim::session({}, [&] { return processBody(c, rr); }); unlink(rr.file.c_str()); unlink((rr.file + ".state").c_str()); uint64_t back = sim::draw(4); if (ro.disk.writeOps > back) { p.crashOp = ro.disk.writeOps - back; sim::count("probe:crash-near-close"); } } }
    auto o = sim::session(p, [&] { return processBody(c, r); });
    std::string dAfter = sim::slurp(file), sAfter = sim::slurp(state);
    SIM_EVENT("session " << s << (crash ? " crash@" + std::to_string(p.crashOp) : std::string("")) << " " << describe(c, r) << " -> " << o.kindName() << " " << o.what << " data " << dBefore.size() << "->" << dAfter.size() << " state " << sBefore.size() << "->" << sAfter.size());
    SIM_CHECK(o.kind != sim::Outcome::Died && o.kind != sim::Outcome::Hung, "restart-died", "session " << s << " " << o.kindName() << " " << o.what);
    SIM_CHECK(dAfter.compare(0, dBefore.size(), dBefore) == 0 && sAfter.compare(0, sBefore.size(), sBefore) == 0, "history-destroyed", "session " << s << " changed what was on disk before it started");
    if (o.kind == sim::Outcome::Threw) {
      SIM_CHECK(continuing && refuse, "resume-refused", "session " << s << " refused to start (" << o.what << ") although the state on disk is intact");
      SIM_CHECK(dAfter == dBefore && sAfter == sBefore, "refused-but-wrote", "session " << s << " failed to resume but modified the files");
      // operator: cut the torn tail off, or, with no acknowledged session at all, start over
      if (everAck) { sim::spit(state, stateAck); sim::count("probe:operator-repair"); } else { unlink(state.c_str()); unlink(file.c_str()); }
      continue;
    }
    // ---- the session ran: compare with the model from the resume point
    withTraj(c, [&](auto& ref) {
      if (continuing && !refuse) { sim::spit(sim::scratch() + "/prev.state", sBefore); auto is = cppqedutils::trajectory::openStateFileReading(sim::scratch() + "/prev.state"); while ((is->peek(), !is->eof())) cppqedutils::trajectory::readViaSStream(ref, is); }
      else if (!init.empty()) { auto is = cppqedutils::trajectory::openStateFileReading(init); while ((is->peek(), !is->eof())) cppqedutils::trajectory::readViaSStream(ref, is); }
      double t0 = ref.getTime(); Expect e = model(ref, r, continuing && !refuse); sim::addSimTime(ref.getTime() - t0);
      std::string added = dAfter.substr(dBefore.size());
      // (a torn last line of the crashed predecessor is completed by whatever comes next: skip to its end)
      if (!dBefore.empty() && dBefore.back() != '\n') { auto nl = added.find('\n'); added = nl == std::string::npos ? "" : added.substr(nl + 1); }
      Parsed pd = parseData(added, o.kind == sim::Outcome::SimCrash); std::string why; size_t skip = 0;
      // without a header, what completes the torn line is either the first data line or a log line
      if (!dBefore.empty() && dBefore.back() != '\n' && !r.info && e.lines.size()) skip = pd.lines.empty() ? (o.kind == sim::Outcome::SimCrash ? 0 : e.lines.size() == 1) : !lineMatches(pd.lines[0], e.lines[0], r.precision, why);
      if (o.kind == sim::Outcome::SimCrash) { sim::nontrivial(); SIM_CHECK(pd.lines.size() <= e.lines.size(), "output-after-crash", "more lines than the session can have streamed"); }
      else SIM_CHECK(e.nothing || pd.lines.size() + skip == e.lines.size(), "output-after-crash", "session " << s << " wrote " << pd.lines.size() << " lines instead of " << e.lines.size());
      for (size_t i = 0; i < pd.lines.size() && i + skip < e.lines.size(); ++i) SIM_CHECK(lineMatches(pd.lines[i], e.lines[i + skip], r.precision, why), "output-after-crash", "session " << s << " line " << i << " " << why);
      for (auto& x : e.snaps) written.push_back(x);
      if (o.kind == sim::Outcome::Returned) {
        Report rep = parseReport(o.payload); sim::eventBits("state", rep.last); SIM_CHECK(sim::sameBits(stateOf(ref), rep.last), "resumed-wrong-state", "session " << s << " did not continue from the state on disk (or the initial condition): ends at x0=" << rep.last[2] << " instead of " << stateOf(ref)[2]);
        if (!e.nothing) { Snaps sn = readSnaps(c, state); bool torn = refuse && !sBefore.empty(); SIM_CHECK(torn || (sn.ok && !sn.v.empty() && sim::sameBits(sn.v.back(), stateOf(ref))), "ack-lost", "session " << s << " reported success but its final state cannot be read back: " << sn.why);
          if (sn.ok) { acked.push_back(sn.v.back()); everAck = true; stateAck = sAfter; dataAck = dAfter; } }
        if (s && !e.nothing) sim::count("probe:resumed-after-history");
      }
    });
    sim::shape(describe(c, r) + (crash ? std::to_string(p.crashOp) : "")); if (summary.size() < 300) summary += (s ? " ; " : "") + std::string(o.kindName()) + (crash ? "@" + std::to_string(p.crashOp) : "") + " " + describe(c, r);
  }
  sim::setSummary(summary);
}
SIM_PROPERTY(P02, crashRecovery);

// ==================================================================== P03: damaged or foreign state files
static void damagedState() {
  TrajCfg c = drawTraj(3); std::string file = sim::scratch() + "/run.dat", state = file + ".state"; unsigned n = 1 + unsigned(sim::draw(3)); double now = 0; std::vector<size_t> bounds{0}; std::string summary;
  for (unsigned s = 0; s < n; ++s) { RunCfg r = drawRun(now); r.file = file; auto o = sim::session({}, [&] { return processBody(c, r); }); SIM_CHECK(o.kind == sim::Outcome::Returned, "run-failed", o.what); now = parseReport(o.payload).last[0]; bounds.push_back(sim::slurp(state).size()); }
  std::string good = sim::slurp(state), data = sim::slurp(file); Snaps all = readSnaps(c, state); SIM_CHECK(all.ok, "state-unreadable", all.why);
  bool raw = sim::chance(1, 3); if (raw) { auto o = sim::session({}, [&] { auto is = cppqedutils::trajectory::openStateFileReading(state); std::ostringstream b; b << is->rdbuf(); return b.str(); }); good = o.payload; sim::count("probe:uncompressed-state-file"); }
  std::string bad = good; unsigned kind = unsigned(sim::draw(raw ? 2 : 7)); bool missing = kind == 6; std::string what;
  auto pos = [&](size_t m) -> size_t { if (!m) return 0; return sim::draw(m); };
  switch (kind) {
    case 0: { bad = good.substr(0, pos(good.size())); what = "truncated to " + std::to_string(bad.size()); sim::count("fault:torn_file"); break; }
    case 1: { size_t cut = 1 + pos(std::min<size_t>(good.size() - 1, 40)); bad = good.substr(0, good.size() - cut); what = "last " + std::to_string(cut) + " bytes lost"; sim::count("fault:torn_file"); break; }
    case 2: { unsigned k = 1 + unsigned(sim::draw(3)); for (unsigned i = 0; i < k; ++i) { size_t q = pos(good.size()); bad[q] = char(bad[q] ^ (1 << sim::draw(8))); } what = std::to_string(k) + " flipped bits"; sim::count("fault:bit_flip", k); break; }
    case 3: { size_t a = pos(good.size()), l = 1 + pos(512); for (size_t i = a; i < std::min(good.size(), a + l); ++i) bad[i] = 0; what = "zeroed block at " + std::to_string(a); sim::count("fault:zeroed_block"); break; }
    case 4: { size_t b = bounds[1 + sim::draw(bounds.size() - 1)]; size_t extra = pos(std::min<size_t>(good.size() - b + 1, 64)); bad = good.substr(0, std::min(good.size(), b + extra)); what = "cut " + std::to_string(extra) + " bytes after a session boundary"; sim::count("fault:lost_tail"); break; }
    case 6: { bad.clear(); what = "lost altogether"; sim::count("fault:lost_file"); break; }
    default: { size_t a = pos(good.size()), l = 1 + pos(64); bad.erase(a, l); what = "missing block at " + std::to_string(a); sim::count("fault:lost_block"); break; }
  }
  if (raw && kind == 2) return;
  RunCfg r = drawRun(now); r.file = file; if (sim::chance(1, 3)) { r.file = sim::scratch() + "/other.dat"; r.init = sim::scratch() + "/damaged.state"; if (!missing) sim::spit(r.init, bad); sim::count("probe:damaged-initial-file"); } else if (missing) unlink(state.c_str()); else sim::spit(state, bad);
  std::string dBefore = sim::slurp(r.file);
  auto o = sim::session({}, [&] { return processBody(c, r); });
  SIM_EVENT("damage: " << what << " -> " << o.kindName() << " " << o.what);
  SIM_CHECK(o.kind == sim::Outcome::Returned || o.kind == sim::Outcome::Threw, "damage-died", "resuming from a state file with " << what << ": " << o.kindName() << " " << o.what);
  if (bad != good) sim::nontrivial();
  if (o.kind == sim::Outcome::Threw) {
    SIM_CHECK(bad != good, "intact-refused", "an intact state file was refused: " << o.what);
    SIM_CHECK(sim::slurp(r.file) == dBefore && (r.init.empty() ? sim::slurp(state) : sim::slurp(r.init)) == bad, "refused-but-wrote", "the run refused the state file but modified the files"); sim::count("probe:damage-refused");
  } else {
    sim::count("probe:damage-harmless"); Report rep = parseReport(o.payload); bool okay = false; V best;
    if (bad.empty() && !missing && !r.init.empty()) all.v.insert(all.v.begin(), V{});   // an empty initial file holds no state at all
    for (auto it = all.v.rbegin(); it != all.v.rend() && !okay; ++it) withTraj(c, [&](auto& ref) {
      // load that very snapshot: replay the genuine file up to it
      if (!it->empty()) { sim::spit(sim::scratch() + "/genuine.state", good); auto is = cppqedutils::trajectory::openStateFileReading(sim::scratch() + "/genuine.state"); size_t upto = all.v.rend() - it; for (size_t k = 0; k < upto; ++k) cppqedutils::trajectory::readViaSStream(ref, is); }
      RunCfg q = r; model(ref, q, r.init.empty()); okay = sim::sameBits(stateOf(ref), rep.last); });
    SIM_CHECK(okay, "silent-corruption", "a state file with " << what << " was loaded without complaint into a state nobody saved (t=" << rep.last[0] << " x0=" << rep.last[2] << ")");
    if (bad == good) SIM_CHECK(true, "", "");
  }
  sim::addSimTime(now); sim::shape(what); sim::setSummary(std::to_string(n) + " sessions, then state file " + (raw ? "(uncompressed) " : "") + what + " -> " + o.kindName());
}
SIM_PROPERTY(P03, damagedState);

// a state file of some other trajectory: other element type, other size
static void foreignState() {
  TrajCfg a = drawTraj(3), b = drawTraj(3); std::string file = sim::scratch() + "/run.dat"; RunCfg r = drawRun(0); r.file = file; 
  auto o = sim::session({}, [&] { return processBody(a, r); }); SIM_CHECK(o.kind == sim::Outcome::Returned, "run-failed", o.what); double now = parseReport(o.payload).last[0]; std::string st = sim::slurp(file + ".state"), da = sim::slurp(file);
  bool sameType = (a.kind == 2) == (b.kind == 2) && (a.kind == 0) == (b.kind == 0); bool fits = sameType && a.dim == b.dim;
  if (sameType && a.kind != b.kind) return;   // the scripted stepper carries one more number: not a pair a user can produce
  if ((a.kind == 0) != (b.kind == 0) && (a.kind == 2) == (b.kind == 2)) return;
  RunCfg q = drawRun(now); bool viaInit = sim::draw(2); if (viaInit) { q.file = sim::scratch() + "/other.dat"; q.init = file + ".state"; } else q.file = file;
  o = sim::session({}, [&] { return processBody(b, q); });
  SIM_EVENT("foreign " << kindName(a.kind) << a.dim << " into " << kindName(b.kind) << b.dim << " -> " << o.kindName() << " " << o.what);
  SIM_CHECK(o.kind == sim::Outcome::Returned || o.kind == sim::Outcome::Threw, "foreign-died", o.kindName() << " " << o.what);
  if (fits) SIM_CHECK(o.kind == sim::Outcome::Returned, "intact-refused", "a matching state was refused: " << o.what);
  else { SIM_CHECK(o.kind == sim::Outcome::Threw, "foreign-accepted", "the state of a " << kindName(a.kind) << " trajectory of size " << a.dim << " was accepted by a " << kindName(b.kind) << " one of size " << b.dim); SIM_CHECK(sim::slurp(file) == da && sim::slurp(file + ".state") == st, "refused-but-wrote", "the run refused a foreign state but modified the files"); sim::count("fault:foreign_state"); sim::nontrivial(); }
  sim::shape(std::string(kindName(a.kind)) + std::to_string(a.dim) + kindName(b.kind) + std::to_string(b.dim) + std::to_string(viaInit)); sim::setSummary(std::string("state of ") + kindName(a.kind) + " dim " + std::to_string(a.dim) + " offered to " + kindName(b.kind) + " dim " + std::to_string(b.dim));
}
SIM_PROPERTY(P03, foreignState);

// ==================================================================== P04: failing system calls
static void ioFaults() {
  TrajCfg c = drawTraj(3); if (sim::chance(1, 5)) { c.kind = 1; c.dim = 3000; c.y0.assign(c.dim, 0.); uint64_t sd = sim::draw(1000); sim::Prng q(sd); for (auto& y : c.y0) y = q.unit(); c.lin.k = 1e-3; }
  std::string file = sim::scratch() + "/run.dat", state = file + ".state"; unsigned n = 1 + unsigned(sim::draw(3)); double now = 0; std::string summary; bool broken = false; std::string stateAck;
  for (unsigned s = 0; s < n; ++s) {
    RunCfg r = drawRun(now); r.file = file; if (c.dim > 100) { r.mode = DT; r.T = now + 3 * r.Dt; }
    sim::DiskPlan p; unsigned f = unsigned(sim::draw(8)); bool hard = true; std::string fn;
    std::string dBefore = sim::slurp(file), sBefore = sim::slurp(state);
    switch (f) {
      case 0: case 1: hard = false; p.shortW = 1 + unsigned(sim::draw(4)); p.shortR = 1 + unsigned(sim::draw(4)); p.eintr = 2 + unsigned(sim::draw(6)); p.seed = sim::draw(1 << 20); fn = "short/interrupted calls"; break;
      case 2: p.errOp = 1 + sim::draw(20); p.errNo = sim::draw(2) ? EIO : ENOSPC; p.errPart = unsigned(sim::draw(8)); p.errFile = int(sim::draw(3)); fn = "writes fail from op " + std::to_string(p.errOp) + " on file class " + std::to_string(p.errFile); break;
      case 3: p.quota = dBefore.size() + sBefore.size() + 64 + sim::draw(c.dim > 100 ? 200000 : 3000); fn = "disk full after " + std::to_string(p.quota); break;
      case 4: p.errOp = 1 + sim::draw(25); p.errCount = 1 + sim::draw(2); p.errNo = sim::draw(2) ? EIO : ENOSPC; p.errPart = unsigned(sim::draw(8)); p.errFile = int(sim::draw(3)); fn = "transient write error at op " + std::to_string(p.errOp); break;
      case 5: p.openOp = 1 + sim::draw(3); p.openErr = std::vector<int>{EACCES, EMFILE, ENOSPC, EROFS}[sim::draw(4)]; fn = "open #" + std::to_string(p.openOp) + " fails"; break;
      case 6: p.readOp = 1 + sim::draw(8); fn = "reads fail from op " + std::to_string(p.readOp); break;
      default: p.allocMin = 2048; p.allocOp = 1 + sim::draw(30); fn = "allocation " + std::to_string(p.allocOp) + " fails"; break;
    }
    if (sim::chance(1, 4)) { p = {}; hard = false; fn = "no fault"; }
    auto o = sim::session(p, [&] { return processBody(c, r); });
    auto& d = o.disk; bool fired = d.errs || d.quotaErrs || d.openErrs || d.readErrs || d.allocErrs;
    std::string dAfter = sim::slurp(file), sAfter = sim::slurp(state);
    SIM_EVENT("session " << s << " [" << fn << "] " << describe(c, r) << " -> " << o.kindName() << " " << (o.kind == sim::Outcome::Threw ? "" : o.what) << " data " << dBefore.size() << "->" << dAfter.size() << " state " << sBefore.size() << "->" << sAfter.size());
    SIM_CHECK(o.kind != sim::Outcome::Hung, "fault-hang", "with " << fn << " the run never ends [" << describe(c, r) << "]");
    SIM_CHECK(o.kind != sim::Outcome::Died, "fault-died", "with " << fn << " the process dies (" << o.what << ") [" << describe(c, r) << "]");
    SIM_CHECK(dAfter.compare(0, dBefore.size(), dBefore) == 0 && sAfter.compare(0, sBefore.size(), sBefore) == 0, "history-destroyed", "with " << fn << " the session changed what was on disk before");
    if (fired || d.shortW || d.shortR || d.eintr) sim::nontrivial();
    if (o.kind == sim::Outcome::Threw) {
      SIM_CHECK(fired || broken, "spurious-failure", "the run failed (" << o.what << ") although no call failed (" << fn << ")"); sim::count("probe:fault-reported");
      if (dAfter != dBefore || sAfter != sBefore) broken = true;   // the failed session may leave a torn tail: only silence is forbidden
    } else {
      // success was reported: everything must be there
      if (fired) sim::count("probe:fault-survived");
      bool continuing = !dBefore.empty();
      withTraj(c, [&](auto& ref) {
        bool loaded = false;
        if (continuing) { sim::spit(sim::scratch() + "/prev.state", sBefore); auto is = cppqedutils::trajectory::openStateFileReading(sim::scratch() + "/prev.state"); while ((is->peek(), !is->eof())) { cppqedutils::trajectory::readViaSStream(ref, is); loaded = true; } }
        (void)loaded; double t0 = ref.getTime(); Expect e = model(ref, r, continuing); sim::addSimTime(ref.getTime() - t0); Report rep = parseReport(o.payload); sim::eventBits("state", rep.last);
        SIM_CHECK(sim::sameBits(stateOf(ref), rep.last), "wrong-result", "with " << fn << " the run reports success but ends in the wrong state (t=" << rep.last[0] << " instead of " << stateOf(ref)[0] << ")");
        if (!e.nothing) {
          std::string added = dAfter.substr(dBefore.size()); size_t skip = 0; if (!dBefore.empty() && dBefore.back() != '\n') { auto nl = added.find('\n'); added = nl == std::string::npos ? "" : added.substr(nl + 1); skip = r.info ? 0 : 1; }
          Parsed pd = parseData(added); std::string why; SIM_CHECK(pd.lines.size() + skip == e.lines.size(), "output-lost", "with " << fn << " the run reports success but " << pd.lines.size() << " of " << e.lines.size() << " data lines are in the file [" << describe(c, r) << "]");
          for (size_t i = 0; i < pd.lines.size(); ++i) SIM_CHECK(lineMatches(pd.lines[i], e.lines[i + skip], r.precision, why), "output-lost", "with " << fn << " the run reports success but line " << i << " " << why);
          Snaps sn = readSnaps(c, state); SIM_CHECK(sn.ok && !sn.v.empty() && sim::sameBits(sn.v.back(), stateOf(ref)), "state-lost", "with " << fn << " the run reports success but its final state is not in the state file: " << sn.why << " [" << describe(c, r) << "]");
          stateAck = sAfter;
        }
        now = ref.getTime();
      });
      broken = false;
    }
    sim::shape(fn + describe(c, r)); if (summary.size() < 300) summary += (s ? " ; " : "") + fn + ": " + o.kindName();
    if (broken) break;
  }
  // faults over: the history is either continued correctly or refused aloud
  if (broken) {
    std::string dBefore = sim::slurp(file), sBefore = sim::slurp(state); RunCfg r = drawRun(now); r.file = file; if (c.dim > 100) { r.mode = DT; r.T = now + 2 * r.Dt; } auto o = sim::session({}, [&] { return processBody(c, r); });
    SIM_EVENT("after the faults: " << o.kindName()); SIM_CHECK(o.kind == sim::Outcome::Returned || o.kind == sim::Outcome::Threw, "fault-died", "after a failed session a fault-free one " << o.kindName() << " " << o.what);
    if (!stateAck.empty() && sBefore == stateAck) SIM_CHECK(o.kind == sim::Outcome::Returned, "resume-refused", "the state file is exactly what was acknowledged, yet: " << o.what);
    if (o.kind == sim::Outcome::Returned) { sim::count("probe:recovered-after-fault"); }
  }
  sim::setSummary(summary);
}
SIM_PROPERTY(P04, ioFaults);
