#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--runs N] | check.py --replay FILE
Builds the simulation from /repo, runs seeded simulations, minimises and gates violations, writes the evidence file."""
import collections, json, os, re, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build
from props import PROPS

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or max(2, min(8, os.cpu_count() or 8))

def scratch_root():
    for d in ("/dev/shm", os.environ.get("TMPDIR", "/tmp"), "/tmp"):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > 512 << 20:
                return tempfile.mkdtemp(prefix="cppqedsim.", dir=d)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix="cppqedsim.")

def rmtree(d):
    import shutil
    shutil.rmtree(d, ignore_errors=True)

class Server:
    """replays tapes in a helper process, one run (itself a fresh forked process) per tape"""
    def __init__(self, binary, prop, root):
        self.p = subprocess.Popen([binary, "--prop", prop, "--replay", "-", "--root", root], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    def run(self, tape):
        self.p.stdin.write(" ".join(map(str, tape)) + "\n"); self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())
    def close(self):
        try: self.p.stdin.close()
        except Exception: pass
        self.p.wait()

def replay_once(binary, prop, tape, root, verbose=False):
    f = os.path.join(root, "tape.%d.%d" % (os.getpid(), threading.get_ident()))
    open(f, "w").write(" ".join(map(str, tape)))
    out = subprocess.run([binary, "--prop", prop, "--replay", f, "--root", root] + (["--verbose"] if verbose else []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace").stdout
    os.unlink(f)
    head, _, text = out.partition("\n")
    return json.loads(head), text

def shrink(server, tape, cls, deadline):
    """fewer choices, then plainer choices (0 is the plainest), while the same class of violation persists"""
    tried = {}
    best = list(tape)
    def bad(t):
        k = tuple(t)
        if k not in tried:
            if time.time() > deadline: return False
            r = server.run(t); tried[k] = r["status"] == "violation" and r["cls"] == cls
        return tried[k]
    while best and best[-1] == 0 and bad(best[:-1]): best = best[:-1]
    progress = True
    while progress and time.time() < deadline:
        progress = False
        n = len(best)
        while n >= 1:
            i = 0
            while i < len(best):
                for cand in (best[:i] + best[i + n:], best[:i] + [0] * len(best[i:i + n]) + best[i + n:]):
                    if len(cand) < len(best) or cand != best:
                        if (len(cand), sum(x > 0 for x in cand)) < (len(best), sum(x > 0 for x in best)) and bad(cand):
                            best = cand; progress = True; break
                else:
                    i += n
                    continue
            n //= 2
        for i in range(len(best)):
            v = best[i]
            for w in (1, v // 16, v // 2, v - 1):
                if 0 < w < best[i] and bad(best[:i] + [w] + best[i + 1:]):
                    best = best[:i] + [w] + best[i + 1:]; progress = True
    while best and best[-1] == 0 and bad(best[:-1]): best = best[:-1]
    return best

def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", l.strip())
            if m: out.append(m.groups())
    return out

def main():
    if "--replay" in sys.argv:
        f = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        os.environ["SIM_KNOWN"] = ",".join(k[1] for k in known_findings() if k[0] == f["property"])
        b = build.build([f["binary"]])[f["binary"]]; root = scratch_root()
        r, text = replay_once(b, f["property"], f["tape"], root, verbose=True); rmtree(root)
        sys.stdout.write(text)
        same = r["status"] == "violation" and r["cls"] == f["class"]
        print(json.dumps({k: r[k] for k in ("status", "cls", "msg", "hash")}))
        if same: print("VIOLATION property=%s replay=%s" % (f["property"], sys.argv[sys.argv.index("--replay") + 1]))
        return 1 if same else 0
    prop = sys.argv[1]; spec = PROPS[prop]
    os.environ["SIM_KNOWN"] = ",".join(k[1] for k in known_findings() if k[0] == prop)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    bins = build.build([s["binary"] for s in spec["suites"]])
    t_build = time.time() - t0
    root = scratch_root()
    results, lock, stop = [], threading.Lock(), threading.Event()
    mult = float(sys.argv[sys.argv.index("--mult") + 1]) if "--mult" in sys.argv else 1.0
    t1 = time.time()
    try:
        jobs = []
        for s in spec["suites"]:
            n = int(s[tier] * mult)
            chunk = max(1, min(s.get("chunk", 25), n // (WORKERS * 4) + 1))
            jobs += [(s["binary"], a, min(n, a + chunk)) for a in range(0, n, chunk)]
        # interleave suites so that a wall cap cuts all of them alike
        jobs.sort(key=lambda j: j[1] / max(1, next(s[tier] for s in spec["suites"] if s["binary"] == j[0])))
        cap = spec.get("cap_" + tier, 420 if tier == "quick" else 3 * 3600)
        it = iter(jobs); errors = []; known = known_findings(); met = set()
        def work():
            while not stop.is_set() and time.time() - t1 < cap:
                with lock: j = next(it, None)
                if j is None: return
                b, a, z = j
                r = subprocess.run([bins[b], "--prop", prop, "--seed", str(SEED), "--from", str(a), "--to", str(z), "--root", root], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
                with lock:
                    if r.returncode: errors.append("%s exited with %d" % (j, r.returncode)); stop.set()
                    for l in r.stdout.splitlines():
                        d = json.loads(l); d["binary"] = b; results.append(d)
                        for q in [q[6:] for q in d["counters"] if q.startswith("known:")]:
                            met.add(q)
                        if d["status"] == "violation":
                            if sum(x["status"] == "violation" for x in results) >= spec.get("stop_after", 3): stop.set()
        ts = [threading.Thread(target=work) for _ in range(WORKERS)]
        [t.start() for t in ts]; [t.join() for t in ts]
        wall_runs = time.time() - t1
        if errors:
            print("ERROR " + "; ".join(errors)); return 2
        viol = sorted((r for r in results if r["status"] == "violation"), key=lambda r: (r["binary"], r["run"]))
        verdict = 0; reported = []
        seen = set()
        for k in known:
            if k[0] == prop and k[1] in met: print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
        for v in viol:
            if v["cls"] in seen: continue
            seen.add(v["cls"])
            b = bins[v["binary"]]
            first, _ = replay_once(b, prop, v["tape"], root)
            if (first["status"], first["cls"]) != ("violation", v["cls"]) or first["hash"] != v["hash"]:
                print("ERROR run %d of %s is not reproducible: %s/%s vs %s/%s" % (v["run"], prop, v["cls"], v["hash"], first["cls"], first["hash"])); return 2
            srv = Server(b, prop, root); mini = shrink(srv, v["tape"], v["cls"], time.time() + (60 if tier == "quick" else 300)); srv.close()
            r1, text = replay_once(b, prop, mini, root, verbose=True); r2, _ = replay_once(b, prop, mini, root)
            if not (r1["status"] == r2["status"] == "violation" and r1["cls"] == r2["cls"] == v["cls"] and r1["hash"] == r2["hash"]):
                print("ERROR the minimised run of %s is not reproducible" % prop); return 2
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s-seed%d-run%d.json" % (prop, v["cls"], SEED, v["run"]))
            json.dump({"property": prop, "class": v["cls"], "message": r1["msg"], "binary": v["binary"], "seed": SEED, "run": v["run"], "original_choices": len(v["tape"]), "tape": mini, "hash": r1["hash"],
                       "trace": text.splitlines()[:400], "how_to_replay": "python3 check.py --replay " + path}, open(path, "w"), indent=1)
            print("property %s, class %s, seed %d run %d: %s" % (prop, v["cls"], SEED, v["run"], r1["msg"][:600]))
            print("minimised from %d to %d choices" % (len(v["tape"]), len(mini)))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            reported.append({"class": v["cls"], "run": v["run"], "message": r1["msg"], "replay": path}); verdict = 1
        # ---- evidence
        cnt = collections.Counter()
        for r in results:
            for k, n in r["counters"].items(): cnt[k] += n
        nt = [r for r in results if r["nontrivial"]]
        distinct = len({(r["binary"], r["shape"]) for r in nt})
        step = max(1, len(nt) // 5)
        cov = {"evaluations": len(results), "distinct_nontrivial": distinct, "rule": spec["rule"], "samples": [{"run": r["run"], "choices": r["tapelen"], "log_hash": r["hash"], "what": r["summary"]} for r in nt[::step][:6]],
               "simulated_runs": len(results), "runs_per_hour": int(len(results) / max(wall_runs, 1e-3) * 3600), "simulated_time": sum(r["simtime"] for r in results),
               "distinct_event_logs": len({r["hash"] for r in results}), "max_choices_in_a_run": max((r["tapelen"] for r in results), default=0),
               "faults_injected": {k[6:]: n for k, n in sorted(cnt.items()) if k.startswith("fault:")}, "rare_conditions_reached": {k[6:]: n for k, n in sorted(cnt.items()) if k.startswith("probe:")},
               "other_counters": {k: n for k, n in sorted(cnt.items()) if not k.startswith(("fault:", "probe:"))},
               "real_code": spec["real"], "stubs": spec["stub"], "workers": WORKERS, "build_s": round(t_build, 1)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump({"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": SEED, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 2),
                   "assumptions": spec.get("assumptions", []), "violations": reported}, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        print("%s: %d runs (%d distinct nontrivial), %.1f s build + %.1f s simulation, %d violation(s)" % (prop, len(results), distinct, t_build, wall_runs, len(reported)))
        return verdict
    finally:
        rmtree(root)

if __name__ == "__main__":
    sys.exit(main())
