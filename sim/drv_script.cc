// P18: the command line says what is simulated. A script in a process of its own: parameter structures of several elements in one table, a random command line (order, repetitions, switches, modifiers, ways of
// writing numbers, mistakes), initial states and systems made from what was parsed; compared with the same structures filled in by hand and with the initial states as their documentation defines them.
#include "simkit.h"
#include "Evolution.h"
#include "Mode.tcc"
#include "BichromaticMode.h"
#include "HomodynedMode.h"
#include "Qbit.h"
#include "Spin.h"
#include "Particle.h"
#include "ParsParticle.h"
#include "ParticleInitialCondition.h"
#include "JaynesCummings.h"
#include "ParsParticleCavity.h"
#include "QM_Picture.h"
#include "Pars.h"
#include <fstream>
#include <memory>
namespace {
using std::string; using std::vector; using C = std::complex<double>;
string g17(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
string hex(double d) { char b[40]; snprintf(b, 40, "%016llx", (unsigned long long)sim::bitsOf(d)); return b; }
string number(double v, unsigned form) { char b[60]; switch (form) { case 0: return g17(v); case 1: snprintf(b, 60, "%.17e", v); return b; case 2: snprintf(b, 60, "%+.17g", v); return b; default: { string s = g17(v); if (s.compare(0, 2, "0.") == 0) return s.substr(1); if (s.compare(0, 3, "-0.") == 0) return "-" + s.substr(2); return s; } } }
enum Kind { REAL, CPLX, SIZE, INT, TEXT, SWITCH, ENUM, ICOND, BITS };
struct Val { double re = 0, im = 0; long n = 0; string s; double ic[4]; };
struct Field { string name, base, mod; Kind kind; std::function<string()> get; std::function<void(const Val&)> set; vector<string> names; };
using Fields = vector<Field>;
struct Adder { Fields& f; string mod;
  void real(const char* n, double& r) { f.push_back({n + mod, n, mod, REAL, [&r] { return hex(r); }, [&r](const Val& v) { r = v.re; }}); }
  void cplx(const char* n, dcomp& r) { f.push_back({n + mod, n, mod, CPLX, [&r] { return hex(r.real()) + hex(r.imag()); }, [&r](const Val& v) { r = dcomp(v.re, v.im); }}); }
  template <typename T> void num(const char* n, T& r) { f.push_back({n + mod, n, mod, std::is_signed_v<T> ? INT : SIZE, [&r] { return std::to_string(r); }, [&r](const Val& v) { r = T(v.n); }}); }
  void text(const char* n, string& r) { f.push_back({n + mod, n, mod, TEXT, [&r] { return r; }, [&r](const Val& v) { r = v.s; }}); }
  void flag(const char* n, bool& r) { f.push_back({n + mod, n, mod, SWITCH, [&r] { return string(r ? "on" : "off"); }, [&r](const Val& v) { r = v.n; }}); }
  template <typename T> void choice(const char* n, T& r, vector<string> names) { f.push_back({n + mod, n, mod, ENUM, [&r] { return std::to_string(int(r)); }, [&r](const Val& v) { r = T(v.n); }, names}); }
  void icond(const char* n, particle::InitialCondition& r) { f.push_back({n + mod, n, mod, ICOND, [&r] { return hex(r.getX0()) + hex(r.getK0()) + hex(r.getSig()) + (r.isInK() ? "k" : "x"); }, [&r](const Val& v) { r.get() = {v.ic[0], v.ic[1], v.ic[2], v.ic[3] != 0}; }}); }
};
const vector<string> mfNames{"Sin", "Cos", "Plus", "Minus"}, picNames{"IP", "UIP", "Sch"}, evolNames{"single", "ensemble", "master"};

// what a script consists of
enum Type { MODE, BICHROM, HOMODYNE, QBIT, SPIN, PARTICLE, PUMPED, JC, ALONG, NTYPES };
struct Part { Type type; string mod; std::shared_ptr<mode::ParsBichromatic> bi; std::shared_ptr<mode::ParsPumpedLossy> mo; std::shared_ptr<mode::ParsHomodyned<mode::ParsPumpedLossy>> ho; std::shared_ptr<qbit::ParsPumpedLossyPhaseNoise> qb; std::shared_ptr<spin::Pars> sp; std::shared_ptr<particle::Pars> pa; std::shared_ptr<particle::ParsPumped> pp; std::shared_ptr<jaynescummings::Pars> jc; std::shared_ptr<particlecavity::ParsAlongGenericPump> pc; };
void modeFields(Adder& a, mode::ParsPumpedLossy& p) { a.num("cutoff", p.cutoff); a.num("minitFock", p.minitFock); a.cplx("minit", p.minit); a.num("modeStreamLevel", p.streamLevel); a.real("deltaC", p.delta); a.real("omegaKerr", p.omegaKerr); a.real("omegaKerrAlter", p.omegaKerrAlter); a.cplx("eta", p.eta); a.real("kappa", p.kappa); a.real("nTh", p.nTh); }
void particleFields(Adder& a, particle::Pars& p) { a.real("omrec", p.omrec); a.num("fin", p.fin); a.icond("pinit", p.init); a.num("HOinitn", p.hoInitn); }
struct Script { parameters::Table table; vector<Part> parts; Fields fields; std::shared_ptr<evolution::Pars<>> ev; std::shared_ptr<QM_Picture> own; 
  Script(const vector<std::pair<Type, string>>& what, bool evolFirst) {
    auto evol = [&] { ev = std::make_shared<evolution::Pars<>>(table); Adder a{fields, ""}; a.real("T", ev->T); a.num("dc", ev->dc); a.real("Dt", ev->Dt); a.num("NDt", ev->NDt); a.text("o", ev->ofn); a.text("initialFileName", ev->initialFileName); a.flag("streamInfo", ev->streamInfo); a.flag("firstStateStream", ev->firstStateStream); a.num("sdf", ev->sdf); a.real("autoStopEpsilon", ev->autoStopEpsilon); a.real("autoStopEpsilonAbs", ev->autoStopEpsilonAbs); a.num("autoStopRepetition", ev->autoStopRepetition); a.num("seed", ev->seed); a.num("prngStream", ev->prngStream); a.flag("noise", ev->noise); a.num("nTraj", ev->nTraj); a.real("dpLimit", ev->dpLimit); a.real("overshootTolerance", ev->overshootTolerance); a.num("nBins", ev->nBins); a.num("nJumpsPerBin", ev->nJumpsPerBin); a.real("eps", ev->epsRel); a.real("epsAbs", ev->epsAbs); a.num("logLevel", ev->logLevel); a.choice("evol", ev->evol, evolNames);
      fields.push_back({"ems", "ems", "", BITS, [this] { return ev->ems.to_string(); }, [this](const Val& v) { ev->ems = std::decay_t<decltype(ev->ems)>(v.s); }}); fields.push_back({"precision", "precision", "", INT, [this] { return std::to_string(int(ev->precision)); }, [this](const Val& v) { ev->precision = formdouble::Zero(int(v.n)); }}); };
    if (evolFirst) evol();
    for (auto& w : what) { Part p; p.type = w.first; p.mod = w.second; const string& m = w.second; Adder a{fields, m}; switch (w.first) {
      case MODE: p.mo = std::make_shared<mode::ParsPumpedLossy>(table, m); modeFields(a, *p.mo); break;
      case BICHROM: p.bi = std::make_shared<mode::ParsBichromatic>(table, m); p.mo = p.bi; modeFields(a, *p.bi); a.real("deltaC_Other", p.bi->deltaOther); a.cplx("etaOther", p.bi->etaOther); break;
      case HOMODYNE: p.ho = std::make_shared<mode::ParsHomodyned<mode::ParsPumpedLossy>>(table, m); p.mo = p.ho; modeFields(a, *p.ho); a.cplx("homodyneAmplitude", p.ho->homodyneAmplitude); break;
      case QBIT: p.qb = std::make_shared<qbit::ParsPumpedLossyPhaseNoise>(table, m); a.cplx("qbitInit", p.qb->qbitInit); a.real("deltaA", p.qb->delta); a.cplx("etat", p.qb->eta); a.real("gamma", p.qb->gamma); a.real("gamma_parallel", p.qb->gamma_parallel); break;
      case SPIN: p.sp = std::make_shared<spin::Pars>(table, m); a.num("twoS", p.sp->twoS); a.num("spinDim", p.sp->dim); a.real("theta", p.sp->theta); a.real("phi", p.sp->phi); a.real("omega", p.sp->omega); a.real("gamma", p.sp->gamma); break;
      case PARTICLE: p.pa = std::make_shared<particle::Pars>(table, m); particleFields(a, *p.pa); break;
      case PUMPED: p.pp = std::make_shared<particle::ParsPumped>(table, m); p.pa = p.pp; particleFields(a, *p.pp); a.real("vClass", p.pp->vClass); a.num("kPart", p.pp->kPart); a.choice("modePart", p.pp->modePart, mfNames); break;
      case JC: p.jc = std::make_shared<jaynescummings::Pars>(table, m); a.cplx("g", p.jc->g); break;
      default: p.pc = std::make_shared<particlecavity::ParsAlongGenericPump>(table, m); a.real("Unot", p.pc->uNot); a.num("kCav", p.pc->kCav); a.choice("modeCav", p.pc->modeCav, mfNames); a.real("etaeff", p.pc->etaeff); } parts.push_back(p); }
    if (!evolFirst) evol(); }
};

double anyReal() { double v = sim::pick(vector<double>{.5, 1.25, 1e-3, 3., 12.375, 1e-7, 250., .1}); return sim::draw(3) == 2 ? -v : v; }
// a value that makes sense (initial states and systems are made from it), and how it is written
Val value(const Field& f, string& written) {
  Val v; unsigned form = unsigned(sim::draw(4)); const string& n = f.base;
  switch (f.kind) {
  case REAL: v.re = anyReal(); if (n == "kappa" || n == "nTh" || n == "gamma" || n == "gamma_parallel" || n == "T" || n == "Dt" || n == "dpLimit" || n == "overshootTolerance" || n == "omrec" || n.compare(0, 3, "eps") == 0 || n.compare(0, 8, "autoStop") == 0) v.re = std::fabs(v.re); if (n == "nTh" && sim::draw(2)) v.re = 0; written = number(v.re, form); break;
  case CPLX: v.re = sim::pick(vector<double>{.3, -.2, .05, .625, 0.}); v.im = sim::pick(vector<double>{0., .1, -.4, .25}); if (n == "minit") { double k = sim::pick(vector<double>{1., 2., 4.}); v.re *= k; v.im *= k; } written = v.im == 0 && sim::draw(2) ? (sim::draw(2) ? number(v.re, form) : "(" + number(v.re, form) + ")") : "(" + number(v.re, form) + "," + number(v.im, unsigned(sim::draw(4))) + ")"; break;
  case SIZE: v.n = long(n == "cutoff" ? 2 + sim::draw(12) : n == "fin" ? 2 + sim::draw(4) : n == "minitFock" ? sim::draw(7) : n == "twoS" ? 1 + sim::draw(5) : n == "spinDim" ? sim::pick(vector<long>{0, 2, 2, 9}) : n == "kPart" || n == "kCav" ? 1 + sim::draw(3) : n == "modeStreamLevel" ? sim::draw(2) : n == "seed" ? sim::draw(1u << 31) : sim::draw(1000)); written = std::to_string(v.n); if (form == 2) written = "+" + written; break;
  case INT: v.n = n == "HOinitn" ? sim::range(-1, 4) : n == "precision" ? sim::range(1, 16) : n == "NDt" ? sim::range(0, 1L << 40) : sim::range(0, 40); written = std::to_string(v.n); break;
  case TEXT: v.s = sim::pick(vector<string>{"x.dat", "a/b.c", "out--1", "T", "-", "5"}); written = v.s; break;
  case SWITCH: v.n = long(sim::draw(2)); break;
  case ENUM: v.n = long(sim::draw(f.names.size())); written = f.names[v.n]; break;
  case BITS: for (int i = 0; i < 3; ++i) v.s += char('0' + sim::draw(2)); written = v.s; break;
  case ICOND: v.ic[0] = sim::pick(vector<double>{-.5, .25, 0., .1}); v.ic[1] = sim::pick(vector<double>{0., 1., -2., .5}); v.ic[2] = sim::pick(vector<double>{.1, .4, .25, 1.}); v.ic[3] = sim::chance(1, 4); if (v.ic[3] != 0) v.ic[2] = sim::pick(vector<double>{1., .7, 2.}); if (sim::chance(1, 6)) v.ic[2] = v.ic[3] = 0; { written = "("; for (int i = 0; i < 3; ++i) written += number(v.ic[i], unsigned(sim::draw(4))) + ","; written += v.ic[3] != 0 ? "1)" : "0)"; }
  } return v; }
string canonical(const Script& s) { string r; for (auto& f : s.fields) r += f.name + "=" + f.get() + "\n"; return r; }

// initial states and systems made from parameters
struct Made { string what; int status = 0; /* 0 made, 1 refused */ vector<C> psi; string pars; double dim = 0; };
template <typename F> void attempt(Made& m, F f) { try { f(); } catch (const std::exception& e) { m.status = 1; } }
template <typename PSI> vector<C> amplitudes(const PSI& p) { auto a = p.getArray(); return vector<C>(a.data(), a.data() + a.size()); }
template <typename S> void system(Made& m, const S& s) { std::ostringstream o; s->streamParameters(o); m.pars = o.str() + " highest frequency " + g17(s->highestFrequency()); m.dim = double(s->getTotalDimension()); }
vector<Made> make(const Script& s, QM_Picture pic) { vector<Made> r; for (auto& p : s.parts) { Made m; m.what = p.mod;
  if (p.mo) attempt(m, [&] { m.what = "mode" + p.mod; m.psi = amplitudes(mode::init(*p.mo)); if (p.bi) system(m, mode::make(*p.bi, pic)); else if (p.ho) { if (p.ho->nTh == 0) system(m, mode::make(*p.mo, pic)); } else system(m, mode::make(*p.mo, pic)); });
  if (p.qb) attempt(m, [&] { m.what = "qbit" + p.mod; m.psi = amplitudes(qbit::init(*p.qb)); system(m, qbit::make(*p.qb, pic)); });
  if (p.sp) attempt(m, [&] { m.what = "spin" + p.mod; if (pic == QMP_SCH) system(m, std::make_shared<LossySpinSch>(*p.sp)); else system(m, std::make_shared<LossySpin>(*p.sp)); });
  if (p.pp) attempt(m, [&] { m.what = "pumped particle" + p.mod; m.psi = amplitudes(particle::init(*p.pp)); system(m, particle::makePumped(*p.pp, pic)); });
  else if (p.pa) attempt(m, [&] { m.what = "particle" + p.mod; m.psi = amplitudes(particle::init(*p.pa)); system(m, particle::make(*p.pa, pic)); });
  r.push_back(m); } return r; }
string pack(const vector<Made>& v) { sim::Packer k; k.pod<uint64_t>(v.size()); for (auto& m : v) { k.str(m.what).pod(m.status).str(m.pars).pod(m.dim); vector<double> d; for (auto& c : m.psi) { d.push_back(c.real()); d.push_back(c.imag()); } k.vec(d); } return k.b; }
vector<Made> unpack(sim::Unpacker& u) { vector<Made> r(u.pod<uint64_t>()); for (auto& m : r) { m.what = u.str(); m.status = u.pod<int>(); m.pars = u.str(); m.dim = u.pod<double>(); auto d = u.vec(); for (size_t i = 0; i + 1 < d.size(); i += 2) m.psi.push_back({d[i], d[i + 1]}); } return r; }

// the states the parameters name
double dist(const vector<C>& a, const vector<C>& b) { if (a.size() != b.size()) return 1e9; double d = 0; for (size_t i = 0; i < a.size(); ++i) d = std::max(d, std::abs(a[i] - b[i])); return d; }
void normalise(vector<C>& a) { double n = 0; for (auto& c : a) n += std::norm(c); n = std::sqrt(n); for (auto& c : a) c /= n; }
vector<C> particleState(double x0, double k0, double sig, bool inK, int ho, int fin) { // in momentum space
  const double PI = std::acos(-1.); int n = 1 << fin; vector<C> x(n), k(n); double X = PI * x0;
  if (ho >= 0 || !inK) { for (int j = 0; j < n; ++j) { double q = -PI + 2 * PI * j / n; if (ho < 0) x[j] = std::exp(C(-(q - X) * (q - X) / (4 * sig * sig), q * k0)); else { double u = (q - X) / sig, h0 = 1, h1 = 2 * u, h = ho ? h1 : h0; for (int i = 2; i <= ho; ++i) { h = 2 * u * h1 - 2 * (i - 1) * h0; h0 = h1; h1 = h; } x[j] = h * std::exp(-u * u / 2); } } for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) k[i] += x[j] * std::exp(C(0, -(i - n / 2) * (-PI + 2 * PI * j / n))); }
  else for (int i = 0; i < n; ++i) { double q = i - n / 2; k[i] = std::exp(C(-(q - k0) * (q - k0) / (4 * sig * sig), -q * X)); }
  double big = 0; for (auto& a : k) big = std::max(big, std::abs(a)); if (big < 1e-100) return {}; /* far narrower than the grid: no such state on it */ normalise(k); return k; }

void script() {
  // which elements, under which modifiers
  vector<string> mods{"", "1", "2", "A", "_x", "Second"}; vector<std::pair<Type, string>> what; unsigned n = 1 + unsigned(sim::draw(3)); for (unsigned i = 0; i < n; ++i) { size_t k = sim::draw(mods.size()); what.push_back({Type(sim::draw(NTYPES)), mods[k]}); mods.erase(mods.begin() + long(k)); }
  bool evolFirst = sim::draw(2) == 0, withPicture = sim::draw(4) != 3; Script ref(what, evolFirst), fresh(what, evolFirst); vector<string> args{"script"}; string sum = "script"; for (auto& w : what) sum += " " + std::to_string(w.first) + "'" + w.second + "'";
  QM_Picture pic = QMP_IP; Fields all = ref.fields; if (withPicture) { Adder a{all, ""}; a.choice("picture", pic, picNames); } bool bigPart = false;
  // the command line: the last occurrence counts
  unsigned given = unsigned(sim::draw(14)); struct Word { vector<string> w; }; vector<Word> words; std::map<string, Val> last; sim::Prng order(sim::draw(1000));
  for (unsigned i = 0; i < given; ++i) { size_t k = sim::draw(3) == 2 && i ? 0 : sim::draw(all.size()); if (!k && i) { for (size_t j = 0; j < all.size(); ++j) if ("--" + all[j].name == words.back().w[0] || "--no_" + all[j].name == words.back().w[0]) k = j; sim::count("probe:repeated-option"); } const Field& f = all[k]; string wr; Val v = value(f, wr); f.set(v); if (f.kind == SWITCH) words.push_back({{string(v.n ? "--" : "--no_") + f.name}}); else words.push_back({{"--" + f.name, wr}}); last[f.name] = v; }
  // larger spaces and rarely given things: make initial states interesting
  for (auto& f : all) if ((f.base == "minit" || f.base == "minitFock" || f.base == "qbitInit" || f.base == "pinit" || f.base == "fin") && sim::draw(2)) { string wr; Val v = value(f, wr); f.set(v); words.push_back({{"--" + f.name, wr}}); }
  (void)bigPart; for (auto& f : all) if (f.base == "fin" && f.get() == "6") { string wr = "4"; Val v; v.n = 4; f.set(v); words.push_back({{"--fin" + f.mod, wr}}); }
  // exchange options of different names: order does not matter between them
  for (size_t i = 0; i + 1 < words.size(); ++i) { size_t j = i + order.below(words.size() - i); auto nm = [](const string& s) { return s.compare(0, 5, "--no_") == 0 ? s.substr(5) : s.substr(2); }; bool clash = false; for (size_t q = i; q <= j; ++q) clash = clash || (q != i && nm(words[q].w[0]) == nm(words[i].w[0])) || (q != j && nm(words[q].w[0]) == nm(words[j].w[0])); if (!clash) std::swap(words[i], words[j]); }
  // mistakes
  int mistake = sim::chance(1, 4) ? 1 + int(sim::draw(8)) : 0; size_t pos = words.empty() ? 0 : sim::draw(words.size() + 1); string helpFile = sim::scratch() + "/help.txt", outFile = sim::scratch() + "/out.dat";
  auto insert = [&](vector<string> w) { words.insert(words.begin() + long(pos), Word{w}); }; auto anyOf = [&](Kind k) -> const Field* { vector<const Field*> c; for (auto& f : all) if (f.kind == k) c.push_back(&f); return c.empty() ? nullptr : c[sim::draw(c.size())]; };
  switch (mistake) { case 1: insert({"--noSuchOption", "3"}); break; case 2: { const Field* f = anyOf(REAL); insert({"--" + f->name + "Q", "3"}); break; } case 3: { const Field* f = anyOf(REAL); insert({sim::pick(vector<string>{"-", "", "-+", "+-", "-- "}) + f->name, "3"}); break; } case 4: { const Field* f = anyOf(sim::pick(vector<Kind>{REAL, INT, TEXT, ENUM, SIZE})); words.push_back({{"--" + f->name}}); break; }
    case 5: { const Field* f = anyOf(sim::pick(vector<Kind>{REAL, INT, SIZE, BITS})); insert({"--" + f->name, sim::pick(vector<string>{"abc", ",", "--", "x5", ")"})}); break; } case 6: { const Field* f = anyOf(ENUM); insert({"--" + f->name, sim::pick(vector<string>{"sin", "masterful", "sch", "0", "Singl"})}); break; } case 7: { const Field* f = anyOf(sim::draw(2) ? ICOND : CPLX); if (!f) f = anyOf(REAL); insert({"--" + f->name, f->kind == REAL ? "1.5y" : sim::pick(vector<string>{"(1,2", "(1;2)", "(a,b)", "[1,2]"})}); break; } case 8: insert({"--help"}); break; }
  for (auto& w : words) for (auto& x : w.w) args.push_back(x); string line; for (auto& a : args) line += (line.empty() ? "" : " ") + a; sum += ": " + line; sim::setSummary(sum); sim::shape(sum); SIM_EVENT(sum << " mistake " << mistake);
  string def = canonical(fresh);
  auto o = sim::session({}, [&] { Script s(what, evolFirst); vector<char*> av; for (auto& x : args) av.push_back(x.data()); std::ofstream help; if (mistake == 8) { help.open(helpFile); std::cout.rdbuf(help.rdbuf()); }
    QM_Picture p = QMP_IP; if (withPicture) p = picture::updateWithPicture(s.table, int(av.size()), av.data()); else parameters::update(s.table, int(av.size()), av.data(), "--"); sim::Packer k; k.str(*s.table.getParsedCommandLine()).pod(int(p)).str(canonical(s)); k.b += pack(make(s, p)); return k.b; });
  if (mistake == 8) { SIM_CHECK(o.kind == sim::Outcome::Died && o.what == "exit status 0", "help", "asked for help, the script " << o.kindName() << " " << o.what); string h = "\n" + sim::slurp(helpFile); for (auto& f : all) SIM_CHECK(h.find("\n" + f.name + " ") != string::npos && (f.kind != SWITCH || h.find("\nno_" + f.name + " ") != string::npos), "help", "the list of options lacks " << f.name); sim::count("probe:help"); sim::nontrivial(); return; }
  if (mistake) { sim::count("fault:command-line-mistake"); sim::count("probe:mistake-" + std::to_string(mistake)); SIM_CHECK(o.kind == sim::Outcome::Died && o.what == "signal 6", "mistake-accepted", "the command line '" << line << "' was not refused: " << o.kindName() << " " << o.what); sim::nontrivial(); return; }
  SIM_CHECK(o.kind == sim::Outcome::Returned, "script-failed", "'" << line << "': " << o.kindName() << " " << o.what); sim::Unpacker u(o.payload); string told = u.str(); int p = u.pod<int>(); string values = u.str(); auto made = unpack(u);
  SIM_CHECK(told == line, "command-line", "the parsed command line is remembered as '" << told << "' instead of '" << line << "'"); QM_Picture want = pic; if (withPicture && ref.ev->evol == evolution::MASTER && pic == QMP_IP) { want = QMP_UIP; sim::count("probe:master-uip"); } SIM_CHECK(p == int(want), "picture", "'" << line << "': the picture is " << p << " instead of " << int(want));
  { string w = canonical(ref); std::istringstream a(w), b(values); string la, lb; while (std::getline(a, la)) { std::getline(b, lb); SIM_CHECK(la == lb, "parameter", "'" << line << "': " << lb << " instead of " << la); } if (w != def) sim::count("probe:not-default"); }
  // the same elements from parameters set by hand
  if (last.count("precision")) { parameters::Table t; int q = 6; formdouble::Zero& z = t.add("precision", "", formdouble::Zero(q)); (void)z; string a[3] = {"x", "--precision", std::to_string(last["precision"].n)}; char* av[3] = {a[0].data(), a[1].data(), a[2].data()}; parameters::update(t, 3, av, "--"); } /* sets the precision of the texts compared */
  auto hand = make(ref, want); SIM_CHECK(hand.size() == made.size(), "script-failed", "'" << line << "': incomplete report");
  for (size_t i = 0; i < made.size(); ++i) { auto& m = made[i]; auto& h = hand[i]; const Part& q = ref.parts[i]; string where = "'" + line + "': " + m.what + " "; SIM_CHECK(m.status == h.status && m.pars == h.pars && m.dim == h.dim && dist(m.psi, h.psi) == 0, "element", where << "made from the command line differs from the one made from the same parameters set by hand: '" << m.pars << "' and '" << h.pars << "'");
    if (q.mo) { size_t cut = q.mo->cutoff, nf = q.mo->minitFock; if (nf >= cut) { SIM_CHECK(m.status == 1, "initial-state", where << "Fock state " << nf << " beyond the cutoff " << cut << " was not refused"); sim::count("probe:fock-refused"); continue; } SIM_CHECK(!m.status && m.dim == double(cut) || (q.ho && q.ho->nTh != 0), "element", where << "refused or of dimension " << m.dim); vector<C> w(cut); if (nf) w[nf] = 1; else { C a = q.mo->minit, e = std::exp(-std::norm(a) / 2); for (size_t k = 0; k < cut; ++k) { w[k] = e; e *= a / std::sqrt(double(k + 1)); } } SIM_CHECK(dist(w, m.psi) < 1e-12, "initial-state", where << "starts from another state than the " << (nf ? "Fock" : "coherent") << " state asked for, off by " << dist(w, m.psi)); sim::count(nf ? "probe:fock" : "probe:coherent"); sim::nontrivial(); }
    else if (q.qb) { C a = q.qb->qbitInit; vector<C> w{std::sqrt(1 - std::norm(a)), a}; SIM_CHECK(!m.status && m.dim == 2, "element", where << "refused"); SIM_CHECK(dist(w, m.psi) < 1e-14, "initial-state", where << "starts from another state than asked for"); sim::count("probe:qbit"); sim::nontrivial(); }
    else if (q.sp) { SIM_CHECK(!m.status && m.dim == double(q.sp->dim && q.sp->dim < q.sp->twoS + 1 ? q.sp->dim : q.sp->twoS + 1), "element", where << "of dimension " << m.dim); sim::nontrivial(); }
    else if (q.pa) { if (q.pa->init.getSig() == 0 && (!q.pp || q.pp->hoInitn >= 0)) continue; SIM_CHECK(!m.status && m.dim == double(1 << q.pa->fin), "element", where << "refused or of dimension " << m.dim); auto& ic = q.pa->init; double sig = ic.getSig(); if (sig == 0) { if (!q.pp || q.pp->hoInitn >= 0) continue; /* a width has to be given */ sig = std::pow(q.pp->omrec / std::fabs(q.pp->vClass), .25) / std::sqrt(2.); sim::count("probe:coherent-width"); } auto w = particleState(ic.getX0(), ic.getK0(), sig, ic.isInK(), q.pa->hoInitn, int(q.pa->fin)); if (w.empty()) { sim::count("probe:unresolved-packet"); continue; } C ov = 0; double nm = 0; if (m.psi.size() == w.size()) for (size_t k = 0; k < w.size(); ++k) ov += std::conj(w[k]) * m.psi[k], nm += std::norm(m.psi[k]); SIM_CHECK(std::fabs(nm - 1) < 1e-12 && std::fabs(std::abs(ov) - 1) < 1e-10, "initial-state", where << "starts from another state than asked for: norm " << nm << ", overlap " << std::abs(ov)); sim::count(q.pa->hoInitn < 0 ? ic.isInK() ? "probe:packet-k" : "probe:packet" : "probe:oscillator-state"); sim::nontrivial(); } }
}
}
SIM_PROPERTY(P18, script);
