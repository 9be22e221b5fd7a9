#include "qlaw.h"
static void observation1() { ql::guarded(ql::observation<1>); }
SIM_PROPERTY(P15, observation1);
static void sharing1() { ql::guarded(ql::sharing<1>); }
SIM_PROPERTY(P12, sharing1);
static void ensemble1() { ql::guarded(ql::ensemble<1>); }
SIM_PROPERTY(P11, ensemble1);
static void pictures1() { ql::guarded(ql::pictures<1>); }
SIM_PROPERTY(P13, pictures1);
static void display1() { ql::guarded(ql::display<1>); }
SIM_PROPERTY(P16, display1);
static void retries1() { ql::guarded(ql::retries<1>); }
SIM_PROPERTY(P09, retries1);
static void resume1() { ql::guarded(ql::resume<1>); }
SIM_PROPERTY(P01, resume1);
ql::Offer ql::offer1() { return ql::offer<1>(); }
static void foreign1() { ql::guarded(ql::foreign<1>); }
SIM_PROPERTY(P03, foreign1);
static void logs1() { ql::guarded(ql::logs<1>); }
SIM_PROPERTY(P17, logs1);
// trajectories told apart only by their seed or only by their random stream, however far apart these are, go different ways
static void ownStreams() { using namespace ql; Cfg c; c.rank = 1; c.f[0].kind = F_QBIT; c.f[0].dim = 2; c.f[0].pic = int(sim::draw(3)); c.f[0].kappa = 1.; c.f[0].delta = -.3; c.f[0].eta = dcomp(1.2, .4); c.seed = 1; Set s = drawSet(); s.epsRel = 1e-4; s.dpLimit = .05; s.over = 10.; s.log = 0; Vec psi(2); psi << dcomp(.6, 0), dcomp(0, .8); Mat rho = psi * psi.adjoint();
  struct One { unsigned long seed, stream; std::vector<double> way; }; std::vector<One> v; unsigned long d = 1ul << sim::draw(40), e = 1ul << sim::draw(40), k = 1 + sim::draw(9); for (auto& x : std::vector<std::pair<unsigned long, unsigned long>>{{s.seed, s.stream}, {s.seed, s.stream + k}, {s.seed, s.stream + d}, {s.seed + k, s.stream}, {s.seed + e, s.stream}}) { bool known = false; for (auto& y : v) known |= y.seed == x.first && y.stream == x.second; if (!known) v.push_back({x.first, x.second, {}}); }
  std::string what = "driven decaying qbit, picture " + std::to_string(c.f[0].pic) + " seed " + std::to_string(s.seed) + " stream " + std::to_string(s.stream); SIM_EVENT(what); sim::shape(what + std::to_string(d) + std::to_string(e)); sim::setSummary(what);
  for (auto& x : v) { Model<1> m = build<1>(c); Set q = s; q.seed = x.seed; q.stream = x.stream; auto t = make<1>(SINGLE, m, rho, psi, q); for (int i = 1; i <= 16; ++i) { for (double r; (r = i - t->time()) > 0; ) t->go(r); auto st = t->state(); x.way.insert(x.way.end(), st.begin(), st.end()); } sim::addSimTime(16); sim::eventBits("way", x.way); }
  for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) SIM_CHECK(dist(v[i].way, v[j].way) > 1e-6, "same-stream", what << ": the trajectory with seed " << v[i].seed << " and stream " << v[i].stream << " is that with seed " << v[j].seed << " and stream " << v[j].stream); sim::nontrivial(); }
SIM_PROPERTY(P11, ownStreams);
// the library's random engines: saved and loaded, wherever in the sequence, they continue the same sequence
template <typename E> static void engine(const char* name) {
  uint64_t s1 = 1 + sim::draw(100000), s2 = 1 + sim::draw(100000); E a(s1), b(s2); unsigned n = unsigned(sim::draw(700)), m = unsigned(sim::draw(400)); for (unsigned i = 0; i < n; ++i) a(); for (unsigned i = 0; i < m; ++i) b();
  std::ostringstream o(std::ios::binary); { cppqedutils::oarchive ar(o); ar & a; } { std::istringstream i(o.str(), std::ios::binary); cppqedutils::iarchive ar(i); ar & b; } SIM_EVENT(name << " seed " << s1 << " at " << n << " -> seed " << s2 << " at " << m); sim::shape(name); sim::setSummary(std::string("random engine ") + name); sim::count("fault:restart");
  for (unsigned i = 0; i < 700; ++i) { uint64_t x = a(), y = b(); if (i < 3) SIM_EVENT(x); SIM_CHECK(x == y, "engine-sequence", name << " (seed " << s1 << ", saved after " << n << " numbers): number " << i << " after loading is " << y << " instead of " << x); }
  std::uniform_real_distribution<double> d; for (int i = 0; i < 100; ++i) { double x = d(a); SIM_CHECK(x >= 0 && x < 1, "engine-range", name << ": a random number is " << x); }
  E c(s1), e(s1 + 1); int same = 0; for (int i = 0; i < 64; ++i) same += c() == e(); SIM_CHECK(same < 8, "engine-seeds", name << ": seeds " << s1 << " and " << s1 + 1 << " give the same numbers"); sim::nontrivial();
}
static void engines() { switch (sim::draw(4)) { case 0: engine<pcg64>("pcg64"); break; case 1: engine<std::mt19937_64>("mt19937_64"); break; case 2: engine<XoshiroCpp::Xoshiro256PlusPlus>("Xoshiro256++"); break; default: engine<randomutils::GSL_Engine>("GSL"); } }
SIM_PROPERTY(P01, engines);
