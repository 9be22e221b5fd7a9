// Sessions of the library's run() driver over classical trajectories, and the small reference model of its schedule.
#pragma once
#include "classical.h"
#include <algorithm>
#include <cstdlib>
#include <optional>
#include <set>

namespace drv {

enum Mode { DT = 0, NDT = 1, DC = 2 };
struct RunCfg {
  int mode = DT; double T = 1, Dt = .125; long NDt = 0; int dc = 1; unsigned sdf = 0; int precision = 6; bool info = true, first = true;
  std::string file, init; bool ret = false, stream = true; unsigned asRep = 0; double asEps = 1e-6, asAbs = 1e-12; uint64_t order = 0;
};
inline std::string g17(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }

struct Line { std::vector<double> v; };                       // time, dtDid, values
struct Report { std::vector<std::vector<double>> returned; std::vector<double> last; std::string stdoutText; bool started = false; };

inline std::vector<std::string> cli(const RunCfg& r) {
  std::vector<std::string> a{"simulated-program", "--T", g17(r.T), "--Dt", g17(r.Dt), "--dc", std::to_string(r.mode == DC ? r.dc : 0), "--NDt", std::to_string(r.mode == NDT ? r.NDt : 0), "--sdf", std::to_string(r.sdf), "--precision", std::to_string(r.precision),
    "--autoStopRepetition", std::to_string(r.asRep), "--autoStopEpsilon", g17(r.asEps), "--autoStopEpsilonAbs", g17(r.asAbs), r.info ? "--streamInfo" : "--no_streamInfo", r.first ? "--firstStateStream" : "--no_firstStateStream"};
  if (!r.file.empty()) { a.push_back("--o"); a.push_back(r.file); }
  if (!r.init.empty()) { a.push_back("--initialFileName"); a.push_back(r.init); }
  return a;
}

template <typename T> std::vector<double> flatReturn(double t, double dt, const T& a) { std::vector<double> v{t, dt}; auto f = flatten(a); v.insert(v.end(), f.begin(), f.end()); return v; }

// what one simulated process does: build a fresh trajectory from its parameters, run it as the command line says
inline std::string processBody(const TrajCfg& c, const RunCfg& r) {
  return withTraj(c, [&](auto& traj) {
    parameters::Table table; cppqedutils::trajectory::Pars<> pars(table);
    auto args = cli(r); std::vector<char*> av; for (auto& s : args) av.push_back(s.data());
    parameters::update(table, int(av.size()), av.data(), "--");
    std::stringbuf cap; std::streambuf* old = nullptr; if (r.file.empty()) old = std::cout.rdbuf(&cap);
    sim::armAlloc(true);
    auto res = cppqedutils::run(traj, pars, r.stream, r.ret);
    sim::armAlloc(false);
    if (old) std::cout.rdbuf(old);
    sim::Packer p; p.pod<uint64_t>(res.size()); for (auto& l : res) p.vec(flatReturn(std::get<0>(l), std::get<1>(l), std::get<2>(l)));
    p.vec(stateOf(traj)); p.str(cap.str()); return p.b;
  });
}
inline Report parseReport(const std::string& b) { Report r; sim::Unpacker u(b); uint64_t n = u.pod<uint64_t>(); for (uint64_t i = 0; i < n && !u.end(); ++i) r.returned.push_back(u.vec()); r.last = u.vec(); r.stdoutText = u.str(); return r; }

// all complete snapshots of a state file, as the library reads them (in a process of its own)
struct Snaps { bool ok = false; std::string why; std::vector<std::vector<double>> v; };
inline Snaps readSnaps(const TrajCfg& c, const std::string& file) {
  auto o = sim::session({}, [&] { return withTraj(c, [&](auto& traj) {
    sim::Packer p; auto is = cppqedutils::trajectory::openStateFileReading(file);
    while ((is->peek(), !is->eof())) { cppqedutils::trajectory::readViaSStream(traj, is); p.vec(stateOf(traj)); }
    return p.b; }); });
  Snaps s; s.ok = o.kind == sim::Outcome::Returned; s.why = std::string(o.kindName()) + " " + o.what;
  SIM_CHECK(o.kind == sim::Outcome::Returned || o.kind == sim::Outcome::Threw, "state-read-died", "reading " << file << " " << s.why);
  sim::Unpacker u(o.payload); while (!u.end()) s.v.push_back(u.vec());
  return s;
}

// ------------------------------------------------------------ output file
struct Parsed { std::vector<std::vector<double>> lines; bool torn = false; std::string tornText; };
inline Parsed parseData(const std::string& text, bool allowTorn = false) {
  Parsed p; size_t i = 0; unsigned ln = 0;
  while (i < text.size()) {
    size_t e = text.find('\n', i); ++ln;
    if (e == std::string::npos) { p.torn = true; p.tornText = text.substr(i); SIM_CHECK(allowTorn, "malformed-output", "line " << ln << " of the output file is not terminated: " << p.tornText); break; }
    std::string l = text.substr(i, e - i); i = e + 1;
    if (l.empty() || l[0] == '#') continue;
    std::vector<double> v; for (char& ch : l) if (ch == '(' || ch == ')' || ch == ',') ch = ' ';
    const char* q = l.c_str(); char* end; bool bad = false;
    while (true) { while (*q == ' ' || *q == '\t') ++q; if (!*q) break; double d = strtod(q, &end); if (end == q) { bad = true; break; } v.push_back(d); q = end; }
    SIM_CHECK(!bad && v.size() >= 2, "malformed-output", "line " << ln << " of the output is neither a comment nor data: '" << l << "'");
    p.lines.push_back(v);
  }
  return p;
}
inline bool closeTo(double printed, double exact, int digits) { double tol = .6 * std::pow(10., 1 - digits) * std::fabs(exact) + 1e-300; return std::fabs(printed - exact) <= tol || (std::isnan(printed) && std::isnan(exact)); }
inline bool lineMatches(const std::vector<double>& printed, const std::vector<double>& exact, int precision, std::string& why) {
  if (printed.size() != exact.size()) { why = "has " + std::to_string(printed.size()) + " columns instead of " + std::to_string(exact.size()); return false; }
  for (size_t i = 0; i < printed.size(); ++i) if (!closeTo(printed[i], exact[i], i < 2 ? std::max(6, precision) : precision)) { why = "column " + std::to_string(i + 1) + " is " + g17(printed[i]) + " instead of " + g17(exact[i]); return false; }
  return true;
}

// ------------------------------------------------------------ the reference model of the schedule
struct Expect { bool nothing = false; std::vector<std::vector<double>> lines, snaps; };
template <typename TRAJ> Expect model(TRAJ& ref, const RunCfg& r, bool continuing) {
  Expect e; double t0 = ref.getTime(); double end = r.mode == NDT ? t0 + double(r.NDt) * r.Dt : r.T;
  if (end == 0.) { e.lines.push_back(stateOf(ref)); return e; }
  if (end <= t0) { e.nothing = true; return e; }
  long k = 0;   // number of the streaming point within this session
  std::set<long> snapAt; bool lastSaved = false, lastStreamed = false;
  auto point = [&] {
    bool snap = r.sdf && k % long(r.sdf) == 0 && (k > 0 || (r.first && !continuing));
    if (snap) e.snaps.push_back(stateOf(ref)); lastSaved = snap;
    if (k > 0 || !continuing) { e.lines.push_back(stateOf(ref)); lastStreamed = true; }
    ++k;
  };
  point();
  if (r.mode == DC) { long s = 0; while (ref.getTime() < end) { ref.step(end - ref.getTime(), nul()); lastSaved = lastStreamed = false; if (++s % r.dc == 0) point(); SIM_CHECK(s < 400000, "no-progress", "more than 400000 steps in a run"); } }
  else if (r.mode == DT) { while (ref.getTime() < end) { cppqedutils::advance(ref, std::min(r.Dt, end - ref.getTime()), nul()); point(); SIM_CHECK(k < 100000, "no-progress", "more than 100000 intervals in a run"); } }
  else for (long i = 0; i < r.NDt; ++i) { cppqedutils::advance(ref, r.Dt, nul()); point(); }
  if (!lastStreamed) e.lines.push_back(stateOf(ref));
  if (!lastSaved) e.snaps.push_back(stateOf(ref));
  return e;
}

inline RunCfg drawRun(double now, bool dyadic = false) {
  RunCfg r; r.mode = int(sim::draw(3)); r.Dt = dyadic ? std::vector<double>{.25, .125, .5, 1., .0625}[sim::draw(5)] : std::vector<double>{.25, .1, .3, 1., .07, .0125}[sim::draw(6)];
  r.NDt = 1 + long(sim::draw(6)); r.dc = 1 + int(sim::draw(4)); r.sdf = unsigned(sim::draw(4)); r.precision = std::vector<int>{6, 3, 10, 15, 6, 4}[sim::draw(6)]; r.info = !sim::chance(1, 5); r.first = !sim::chance(1, 4);
  r.T = now + std::vector<double>{.5, .25, 1., .3, .77, 2., .05}[sim::draw(7)]; r.ret = sim::chance(1, 3);
  return r;
}
inline std::string describe(const TrajCfg& c, const RunCfg& r) { std::ostringstream o; o.precision(6); o << kindName(c.kind) << " dim " << c.dim << (r.mode == DT ? " Dt-mode" : r.mode == NDT ? " NDt-mode" : " dc-mode") << " T=" << r.T << " Dt=" << r.Dt; if (r.mode == NDT) o << " NDt=" << r.NDt; if (r.mode == DC) o << " dc=" << r.dc; o << " sdf=" << r.sdf << " prec=" << r.precision << (r.first ? "" : " no-first") << (r.info ? "" : " no-info"); return o.str(); }

} // drv
