#include "simkit.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <dirent.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <new>
#include <set>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {

// ================================================================ shared areas
static constexpr size_t TAPE_MAX = 1 << 16, TEXT_MAX = 1 << 24, SESS_MAX = 1 << 25;
struct Shared {
  uint64_t tapeLen; uint64_t tape[TAPE_MAX];
  uint64_t hash; uint64_t textLen; char text[TEXT_MAX];
  uint64_t resLen; char res[1 << 20];
  int finished;
};
struct SessShared { DiskStats stats; int outcome; int acked; uint64_t whatLen; char what[4096]; uint64_t len; char payload[SESS_MAX]; };
static Shared* sh = nullptr;
static SessShared* ss = nullptr;

// ================================================================ run state
static bool replaying = false, verbose = false, inSess = false, armed = false;
static std::vector<uint64_t> replayTape;
static size_t replayPos = 0;
static Prng* prng = nullptr;
static std::map<std::string, uint64_t> counters;
static double simTime = 0; static std::string shapeStr, summary; static bool nontriv = false;
static std::string scratchDir, scratchRoot;

[[noreturn]] void fail(const std::string& cls, const std::string& msg) { throw Violation{cls, msg}; }

uint64_t draw(uint64_t n) {
  if (inSess) { fprintf(stderr, "simkit: draw inside a session\n"); abort(); }
  if (n == 0) n = 1;
  uint64_t v;
  if (replaying) v = replayPos < replayTape.size() ? replayTape[replayPos] % n : 0, replayPos++;
  else v = prng->below(n);
  if (sh->tapeLen >= TAPE_MAX) fail("harness-tape-overflow", "tape overflow");
  sh->tape[sh->tapeLen++] = v;
  return v;
}
double real(double lo, double hi) { return lo + (hi - lo) * double(draw(1u << 20)) / double(1u << 20); }

static void hashIn(const char* p, size_t n) { uint64_t h = sh->hash; for (size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 0x100000001b3ull; } sh->hash = h; }
void event(const std::string& t) {
  if (inSess) return;
  hashIn(t.data(), t.size()); hashIn("\n", 1);
  if (verbose && sh->textLen + t.size() + 1 < TEXT_MAX) { memcpy(sh->text + sh->textLen, t.data(), t.size()); sh->textLen += t.size(); sh->text[sh->textLen++] = '\n'; }
}
void eventBits(const char* tag, double v) { char b[96]; snprintf(b, sizeof b, "%s=%016llx (%.12g)", tag, (unsigned long long)bitsOf(v), v); event(b); }
void known(const std::string& cls, const std::string& msg) { const char* e = getenv("SIM_KNOWN"); if (("," + std::string(e ? e : "") + ",").find("," + cls + ",") == std::string::npos) fail(cls, msg); count("known:" + cls); }
void count(const std::string& k, uint64_t n) { if (!inSess) counters[k] += n; }
void addSimTime(double t) { simTime += std::fabs(t); }
void shape(const std::string& s) { shapeStr += s; shapeStr += '|'; }
void setSummary(const std::string& s) { summary = s; }
void nontrivial() { nontriv = true; }
const std::string& scratch() { return scratchDir; }
uint64_t bitsOf(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
bool sameBits(const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), 8 * a.size())); }

std::string slurp(const std::string& p, bool* exists) { std::ifstream f(p, std::ios::binary); if (exists) *exists = f.is_open(); std::ostringstream o; o << f.rdbuf(); return o.str(); }
void spit(const std::string& p, const std::string& d) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(d.data(), d.size()); f.close(); if (!f) { fprintf(stderr, "simkit: cannot write %s\n", p.c_str()); _exit(99); } }
bool fileExists(const std::string& p) { struct stat st; return !::stat(p.c_str(), &st); }

static void wipe(const std::string& d) {
  if (scratchRoot.empty() || d.compare(0, scratchRoot.size(), scratchRoot)) return;
  if (DIR* dir = opendir(d.c_str())) { while (dirent* e = readdir(dir)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) wipe(p); else unlink(p.c_str()); } closedir(dir); }
  rmdir(d.c_str());
}

// ================================================================ the disk seam
static DiskPlan plan; static Prng diskPrng(0);
static constexpr int FDMAX = 1024;
static signed char fdKind[FDMAX];   // 0 not ours, 1 data file, 2 state file, 3 other file under scratch
static uint64_t diskBytes = 0;
static bool seamOn = false;

static int kindOf(const char* path) {
  if (!seamOn || !path || scratchDir.empty() || strncmp(path, scratchDir.c_str(), scratchDir.size())) return 0;
  size_t n = strlen(path);
  if (n > 6 && !strcmp(path + n - 6, ".state")) return 2;
  if (strstr(path + scratchDir.size(), "state")) return 2;
  if (n > 4 && !strcmp(path + n - 4, ".dat")) return 1;
  return 3;
}
[[noreturn]] static void simCrash() { ss->stats.crashed++; ss->outcome = 3; _exit(77); }

static ssize_t rawWrite(int fd, const void* b, size_t n) { size_t done = 0; while (done < n) { ssize_t r = syscall(SYS_write, fd, (const char*)b + done, n - done); if (r < 0) return done ? ssize_t(done) : r; done += r; } return done; }

// returns true if the call is fully decided here
static bool writeSeam(int fd, const char* b, size_t n, ssize_t& r) {
  if (!seamOn || fd < 0 || fd >= FDMAX || !fdKind[fd]) return false;
  DiskStats& st = ss->stats; uint64_t op = ++st.writeOps;
  if (plan.crashOp && op >= plan.crashOp) { size_t m = std::min<size_t>(n, n * plan.crashNum / 8); if (m) { rawWrite(fd, b, m); st.bytes += m; } simCrash(); }
  if (plan.errOp && op >= plan.errOp && (!plan.errCount || op < plan.errOp + plan.errCount) && (!plan.errFile || plan.errFile == fdKind[fd])) {
    st.errs++; size_t m = n * plan.errPart / 8;
    if (m && op == plan.errOp) { rawWrite(fd, b, m); st.bytes += m; diskBytes += m; r = m; return true; }
    errno = plan.errNo; r = -1; return true;
  }
  if (plan.quota && diskBytes + n > plan.quota) {
    st.quotaErrs++; size_t m = plan.quota > diskBytes ? plan.quota - diskBytes : 0;
    if (m) { rawWrite(fd, b, m); diskBytes += m; st.bytes += m; r = m; return true; }
    errno = ENOSPC; r = -1; return true;
  }
  if (plan.eintr && diskPrng.below(plan.eintr) == 0) { st.eintr++; errno = EINTR; r = -1; return true; }
  if (plan.shortW && n > 1 && diskPrng.below(plan.shortW) == 0) { size_t m = 1 + diskPrng.below(n - 1); st.shortW++; rawWrite(fd, b, m); st.bytes += m; diskBytes += m; r = m; return true; }
  r = rawWrite(fd, b, n); if (r > 0) { st.bytes += r; diskBytes += r; } return true;
}
// metadata operations (truncate, rename, unlink, fsync) are crash points too
static void metaSeam(bool ours) { if (!seamOn || !ours) return; uint64_t op = ++ss->stats.writeOps; if (plan.crashOp && op >= plan.crashOp) simCrash(); }
static bool openSeam(const char* path, bool forWriting) {   // true: fail with plan.openErr
  int k = kindOf(path); if (!k) return false;
  if (!forWriting) return false;
  uint64_t op = ++ss->stats.opens;
  if (plan.openOp && op == plan.openOp) { ss->stats.openErrs++; errno = plan.openErr; return true; }
  metaSeam(true);
  return false;
}
static void noteFd(int fd, const char* path) { if (fd >= 0 && fd < FDMAX) fdKind[fd] = (signed char)kindOf(path); }

void armAlloc(bool on) { armed = on; }
bool inSession() { return inSess; }
static inline bool allocFails(size_t n) { if (!armed || !plan.allocOp || n < plan.allocMin) return false; if (++ss->stats.allocs == plan.allocOp) { ss->stats.allocErrs++; return true; } return false; }

Outcome session(const DiskPlan& p, const std::function<std::string()>& fn, unsigned limit_ms) {
  if (inSess) { fprintf(stderr, "simkit: nested session\n"); abort(); }
  memset(&ss->stats, 0, sizeof ss->stats); ss->outcome = 0; ss->acked = 0; ss->whatLen = 0; ss->len = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(98); }
  if (!pid) {
    inSess = true; plan = p; diskPrng = Prng(p.seed); memset(fdKind, 0, sizeof fdKind);
    int dn = ::syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0); if (dn >= 0) { dup2(dn, 1); if (!getenv("SIM_STDERR")) dup2(dn, 2); }
    rlimit rl{limit_ms / 1000 + 1, limit_ms / 1000 + 2}; setrlimit(RLIMIT_CPU, &rl);
    diskBytes = 0;
    if (p.quota) if (DIR* d = opendir(scratchDir.c_str())) { while (dirent* e = readdir(d)) { struct stat st; if (!stat((scratchDir + "/" + e->d_name).c_str(), &st) && S_ISREG(st.st_mode)) diskBytes += st.st_size; } closedir(d); }
    seamOn = true;
    int out = 1; std::string what, pay;
    auto setWhat = [&](const std::string& w) { ss->whatLen = std::min<size_t>(w.size(), sizeof ss->what); memcpy(ss->what, w.data(), ss->whatLen); };
    try { pay = fn(); }
    catch (const Violation& v) { out = 4; setWhat(v.cls + "\n" + v.msg); }
    catch (const std::exception& e) { out = 2; setWhat(e.what()); }
    catch (...) { out = 2; setWhat("non-standard exception"); }
    seamOn = false; armed = false;
    ss->len = std::min(pay.size(), SESS_MAX); memcpy(ss->payload, pay.data(), ss->len);
    ss->outcome = out;
    _exit(0);
  }
  int status = 0; 
  // wall watchdog
  timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0); bool hung = false; unsigned spins = 0;
  while (true) {
    pid_t r = waitpid(pid, &status, spins < 200 ? WNOHANG : 0);
    if (r == pid) break;
    if (r < 0 && errno != EINTR) { perror("waitpid"); _exit(98); }
    ++spins; if (spins < 200) { timespec ts{0, 50000}; nanosleep(&ts, nullptr); }
  }
  (void)hung;
  Outcome o; o.disk = ss->stats;
  o.what.assign(ss->what, ss->whatLen); o.payload.assign(ss->payload, ss->len);
  if (WIFSIGNALED(status)) {
    int sig = WTERMSIG(status);
    if (sig == SIGXCPU || sig == SIGKILL) { o.kind = Outcome::Hung; o.what = "cpu limit"; }
    else { o.kind = Outcome::Died; o.what = std::string("signal ") + std::to_string(sig); }
  }
  else if (ss->outcome == 1) o.kind = Outcome::Returned;
  else if (ss->outcome == 2) o.kind = Outcome::Threw;
  else if (ss->outcome == 3) o.kind = Outcome::SimCrash;
  else if (ss->outcome == 4) { size_t nl = o.what.find('\n'); throw Violation{o.what.substr(0, nl), nl == std::string::npos ? "" : o.what.substr(nl + 1)}; }
  else { o.kind = Outcome::Died; o.what = "exit status " + std::to_string(WEXITSTATUS(status)); }
  auto& d = o.disk;
  count("sessions"); count("disk:write_ops", d.writeOps); count("disk:bytes", d.bytes); count("disk:read_ops", d.readOps);
  if (d.crashed) count("fault:process_crash"); if (d.errs) count("fault:write_error", d.errs); if (d.quotaErrs) count("fault:disk_full", d.quotaErrs);
  if (d.shortW) count("fault:short_write", d.shortW); if (d.shortR) count("fault:short_read", d.shortR); if (d.eintr) count("fault:eintr", d.eintr);
  if (d.openErrs) count("fault:open_error", d.openErrs); if (d.readErrs) count("fault:read_error", d.readErrs); if (d.allocErrs) count("fault:alloc_failure", d.allocErrs);
  return o;
}

// ================================================================ registry and main
static std::map<std::string, std::vector<Scenario>>& registry() { static std::map<std::string, std::vector<Scenario>> r; return r; }
Register::Register(const char* p, Scenario s) { registry()[p].push_back(s); }

static std::string jsonEsc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }

struct RunResult { std::string status, cls, msg, json; uint64_t hash = 0; std::vector<uint64_t> tape; std::string text; };

static uint64_t mix(uint64_t a, const std::string& p, uint64_t i) { uint64_t h = 0xcbf29ce484222325ull; auto f = [&](uint64_t x) { for (int k = 0; k < 8; ++k) { h ^= (x >> (8 * k)) & 255; h *= 0x100000001b3ull; } }; f(a); for (char c : p) f((unsigned char)c); f(i); return h; }

static RunResult oneRun(const std::string& prop, uint64_t seed, uint64_t index, bool replay, const std::vector<uint64_t>& tape, bool verb, unsigned limit_s) {
  sh->tapeLen = 0; sh->hash = 0xcbf29ce484222325ull; sh->textLen = 0; sh->resLen = 0; sh->finished = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(98); }
  if (!pid) {
    setpgid(0, 0);
    rlimit rl{limit_s, limit_s + 2}; setrlimit(RLIMIT_CPU, &rl); rlimit as{rlim_t(4) << 30, rlim_t(4) << 30}; setrlimit(RLIMIT_AS, &as); rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
    replaying = replay; replayTape = tape; replayPos = 0; verbose = verb;
    Prng p(mix(seed, prop, index)); prng = &p;
    char tmpl[256]; snprintf(tmpl, sizeof tmpl, "%s/rXXXXXX", scratchRoot.c_str()); 
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); _exit(97); }
    scratchDir = tmpl;
    std::string status = "ok", cls, msg;
    auto& sc = registry()[prop];
    try {
      size_t which = sc.size() > 1 ? draw(sc.size()) : 0;
      sc[which]();
    }
    catch (const Violation& v) { status = "violation"; cls = v.cls; msg = v.msg; event("VIOLATION " + cls); }
    catch (const std::exception& e) { status = "violation"; cls = "unexpected-exception"; msg = e.what(); event("VIOLATION " + cls); }
    std::ostringstream o; o.precision(17);
    o << "{\"status\":\"" << status << "\",\"cls\":\"" << jsonEsc(cls) << "\",\"msg\":\"" << jsonEsc(msg) << "\",\"simtime\":" << (std::isfinite(simTime) ? simTime : 0.) << ",\"nontrivial\":" << (nontriv ? 1 : 0)
      << ",\"shape\":\"" << std::hex << mix(0, shapeStr, 0) << std::dec << "\",\"summary\":\"" << jsonEsc(summary) << "\",\"counters\":{";
    bool first = true; for (auto& c : counters) { o << (first ? "" : ",") << '"' << jsonEsc(c.first) << "\":" << c.second; first = false; }
    o << "}}";
    std::string js = o.str(); sh->resLen = std::min(js.size(), sizeof sh->res); memcpy(sh->res, js.data(), sh->resLen); sh->finished = 1;
    wipe(scratchDir);
    _exit(0);
  }
  setpgid(pid, pid);
  int status = 0; unsigned spins = 0; timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0); bool wallHung = false;
  while (true) {
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) break;
    if (++spins > 50) {timespec ts{0, spins > 2000 ? 2000000 : 100000}; nanosleep(&ts, nullptr);} 
    timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
    if (!wallHung && t1.tv_sec - t0.tv_sec > long(limit_s) * 6) { wallHung = true; kill(-pid, SIGKILL); }
  }
  kill(-pid, SIGKILL);
  RunResult r; r.hash = sh->hash; r.tape.assign(sh->tape, sh->tape + sh->tapeLen); r.text.assign(sh->text, sh->textLen);
  if (sh->finished) r.json.assign(sh->res, sh->resLen);
  else {
    std::string cls, msg;
    if (wallHung || (WIFSIGNALED(status) && (WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGKILL))) { cls = "hang"; msg = "run did not finish within its CPU budget"; }
    else if (WIFSIGNALED(status)) { cls = "crash"; msg = std::string("the code under test died with signal ") + std::to_string(WTERMSIG(status)); }
    else { cls = "harness-exit"; msg = "run exited with status " + std::to_string(WEXITSTATUS(status)); }
    r.hash = 0;
    std::ostringstream o; o << "{\"status\":\"violation\",\"cls\":\"" << cls << "\",\"msg\":\"" << msg << "\",\"simtime\":0,\"nontrivial\":1,\"shape\":\"0\",\"summary\":\"\",\"counters\":{}}";
    r.json = o.str();
    if (DIR* d = opendir(scratchRoot.c_str())) { std::vector<std::string> rm; while (dirent* e = readdir(d)) if (e->d_name[0] == 'r') rm.push_back(scratchRoot + "/" + e->d_name); closedir(d); for (auto& x : rm) wipe(x); }
  }
  return r;
}

static void print(const RunResult& r, uint64_t idx, bool withTape) {
  // one line of JSON per run
  std::string js = r.json; js.pop_back();
  printf("%s,\"run\":%llu,\"hash\":\"%016llx\",\"tapelen\":%zu", js.c_str(), (unsigned long long)idx, (unsigned long long)r.hash, r.tape.size());
  if (withTape) { printf(",\"tape\":["); for (size_t i = 0; i < r.tape.size(); ++i) printf("%s%llu", i ? "," : "", (unsigned long long)r.tape[i]); printf("]"); }
  printf("}\n"); fflush(stdout);
}

int kitMain(int argc, char** argv) {
  std::string prop; uint64_t seed = 1, from = 0, to = 1, stride = 1; bool replay = false, verb = false, tapes = false; std::string tapeFile, root = "/tmp"; unsigned limit = 60; double maxWall = 1e9;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--prop") prop = nx(); else if (a == "--seed") seed = std::stoull(nx()); else if (a == "--from") from = std::stoull(nx()); else if (a == "--to") to = std::stoull(nx());
    else if (a == "--stride") stride = std::stoull(nx()); else if (a == "--replay") { replay = true; tapeFile = nx(); } else if (a == "--verbose") verb = true; else if (a == "--tapes") tapes = true;
    else if (a == "--root") root = nx(); else if (a == "--limit") limit = std::stoul(nx()); else if (a == "--max-wall") maxWall = std::stod(nx());
    else if (a == "--list") { for (auto& p : registry()) printf("%s %zu\n", p.first.c_str(), p.second.size()); return 0; }
  }
  if (!registry().count(prop)) { fprintf(stderr, "no such property: %s\n", prop.c_str()); return 3; }
  { char t[512]; snprintf(t, sizeof t, "%s/cppqedsim.XXXXXX", root.c_str()); if (!mkdtemp(t)) { perror(t); return 3; } scratchRoot = t; }
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  ss = (SessShared*)mmap(nullptr, sizeof(SessShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (sh == MAP_FAILED || ss == MAP_FAILED) { perror("mmap"); return 3; }
  timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  if (replay) {
    // tape file: lines; or, in server mode ("-"), one tape per line on stdin -> one result per line
    if (tapeFile == "-") {
      std::string line; uint64_t k = 0;
      while (std::getline(std::cin, line)) { std::istringstream is(line); std::vector<uint64_t> t; uint64_t v; while (is >> v) t.push_back(v); print(oneRun(prop, seed, 0, true, t, false, limit), k++, true); }
    } else {
      std::ifstream f(tapeFile); std::vector<uint64_t> t; uint64_t v; while (f >> v) t.push_back(v);
      RunResult r = oneRun(prop, seed, 0, true, t, verb, limit); print(r, 0, true); if (verb) { fwrite(r.text.data(), 1, r.text.size(), stdout); }
    }
  } else
    for (uint64_t i = from; i < to; i += stride) {
      timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1); if (double(t1.tv_sec - t0.tv_sec) > maxWall) break;
      RunResult r = oneRun(prop, seed, i, false, {}, verb, limit);
      print(r, i, tapes || r.json.find("\"status\":\"violation\"") != std::string::npos); if (verb) fwrite(r.text.data(), 1, r.text.size(), stdout);
    }
  wipe(scratchRoot);
  return 0;
}

} // sim

int main(int argc, char** argv) { setvbuf(stdout, nullptr, _IOFBF, 1 << 16); return sim::kitMain(argc, argv); }

// ================================================================ interposed system-call wrappers (linked into the executable, so libstdc++ resolves to these)
using namespace sim;
extern "C" {
ssize_t write(int fd, const void* b, size_t n) { ssize_t r; if (writeSeam(fd, (const char*)b, n, r)) return r; return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (seamOn && fd >= 0 && fd < FDMAX && fdKind[fd]) { std::string s; for (int i = 0; i < c; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len); ssize_t r; if (writeSeam(fd, s.data(), s.size(), r)) return r; }
  return syscall(SYS_writev, fd, v, c);
}
ssize_t read(int fd, void* b, size_t n) {
  if (seamOn && fd >= 0 && fd < FDMAX && fdKind[fd]) {
    DiskStats& st = ss->stats; uint64_t op = ++st.readOps;
    if (plan.readOp && op >= plan.readOp) { st.readErrs++; errno = EIO; return -1; }
    if (plan.eintr && diskPrng.below(plan.eintr) == 0) { st.eintr++; errno = EINTR; return -1; }
    if (plan.shortR && n > 1 && diskPrng.below(plan.shortR) == 0) { st.shortR++; n = 1 + diskPrng.below(std::min<size_t>(n - 1, 512)); }
  }
  return syscall(SYS_read, fd, b, n);
}
static bool modeWrites(const char* m) { return m && (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+')); }
typedef FILE* (*fopen_t)(const char*, const char*);
FILE* fopen(const char* p, const char* m) { static fopen_t f = (fopen_t)dlsym(RTLD_NEXT, "fopen"); if (seamOn && openSeam(p, modeWrites(m))) return nullptr; FILE* r = f(p, m); if (r && seamOn) noteFd(fileno(r), p); return r; }
FILE* fopen64(const char* p, const char* m) { static fopen_t f = (fopen_t)dlsym(RTLD_NEXT, "fopen64"); if (seamOn && openSeam(p, modeWrites(m))) return nullptr; FILE* r = f(p, m); if (r && seamOn) noteFd(fileno(r), p); return r; }
static int doOpen(int dirfd, const char* p, int fl, mode_t mode) { if (seamOn && openSeam(p, (fl & O_ACCMODE) != O_RDONLY)) return -1; int fd = syscall(SYS_openat, dirfd, p, fl, mode); if (seamOn) noteFd(fd, p); return fd; }
int open(const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return doOpen(AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return doOpen(AT_FDCWD, p, fl, m); }
typedef int (*fclose_t)(FILE*);
int fclose(FILE* f) { static fclose_t g = (fclose_t)dlsym(RTLD_NEXT, "fclose"); if (seamOn && f) { int fd = fileno(f); if (fd >= 0 && fd < FDMAX) fdKind[fd] = 0; } return g(f); }
int close(int fd) { if (seamOn && fd >= 0 && fd < FDMAX) fdKind[fd] = 0; return syscall(SYS_close, fd); }
int rename(const char* a, const char* b) { if (seamOn) metaSeam(kindOf(a) || kindOf(b)); return syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0); }
int unlink(const char* a) { if (seamOn) metaSeam(kindOf(a)); return syscall(SYS_unlinkat, AT_FDCWD, a, 0); }
int truncate(const char* a, off_t n) { if (seamOn) metaSeam(kindOf(a)); return syscall(SYS_truncate, a, n); }
int ftruncate(int fd, off_t n) { if (seamOn) metaSeam(fd >= 0 && fd < FDMAX && fdKind[fd]); return syscall(SYS_ftruncate, fd, n); }
int fsync(int fd) { if (seamOn) metaSeam(fd >= 0 && fd < FDMAX && fdKind[fd]); return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (seamOn) metaSeam(fd >= 0 && fd < FDMAX && fdKind[fd]); return syscall(SYS_fdatasync, fd); }
}

// ================================================================ allocation seam
static void* simNew(size_t n) { if (allocFails(n)) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return simNew(n); }
void* operator new[](size_t n) { return simNew(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// what the library expects from the (here not compilable) version module
std::string versionHelper() { return "# cppqed simulation harness\n"; }
