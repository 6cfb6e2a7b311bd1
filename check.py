#!/usr/bin/env python3
"""check.py ID quick|thorough   decide one property by seeded simulation
check.py --replay FILE        run a recorded violation again

Exit 0: held on everything explored; 1: "VIOLATION property=ID replay=PATH";
2: no answer (the build or the simulator failed)."""
import collections
import hashlib
import json
import os
import queue
import re
import subprocess
import sys
import threading
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import corpus  # noqa: E402
import gen  # noqa: E402

WORKERS = int(os.environ.get("MFSIM_WORKERS", "8"))
BUDGET = {"quick": 60., "thorough": 600.}
CAP = {"quick": 2000, "thorough": 40000}
SHRINK_S = 75.
WORK = os.path.join(HERE, "build", "work")
REPLAYS = os.path.join(HERE, "build", "replays")
ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "OMP_NUM_THREADS": "1"}


def build():
    r = subprocess.run([sys.executable, "-B", os.path.join(HERE, "tools/build.py")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-4000:])
        print("NO ANSWER: the simulator does not build")
        sys.exit(2)
    return r.stdout.strip().splitlines()[-1]


def line(p):
    p = dict(p)
    if p.get("scen") == "output":
        p["dir"] = os.path.join(WORK, "out%d" % os.getpid())
    return " ".join("%s=%s" % kv for kv in p.items())


class Server:
    """one simulator process; every job is a fork of its pristine state"""

    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def start(self):
        os.makedirs(WORK, exist_ok=True)
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  text=True, cwd=WORK, env=ENV)

    def send(self, s):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(s + "\n")
            self.p.stdin.flush()
            o = self.p.stdout.readline()
            return json.loads(o)
        except (ValueError, OSError) as e:
            self.stop()
            return {"status": "error", "verdict": "error", "msg": "server: %s" % e,
                    "runs": []}

    def run(self, p):
        j = self.send(line(p))
        j.setdefault("verdict", "error")
        j.setdefault("runs", [])
        j.setdefault("msg", "")
        return j

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
        self.p = None


def signature(j):
    m = re.sub(r"[-+]?[0-9][-+0-9.e]*|nan|inf", "#", j["msg"])
    return (j["verdict"], m[:60])


def failed(j):
    return j["status"] == "violation" and j["verdict"] not in ("simulator", "error")


# ------------------------------------------------------------------ shrinking
def simpler(p):
    """candidate jobs simpler than p, most drastic first"""
    def without(*ks):
        q = {k: v for k, v in p.items() if k not in ks}
        return q if q != p else None

    def put(**kw):
        q = dict(p)
        q.update(kw)
        return q if q != p else None

    out = [without(*[k for k in p if k.startswith("alt.")])]
    n = int(p.get("nranks", 1))
    for m in range(1, n):
        out.append(put(nranks=m))
    out.append(without("comm", "outside", "reverse"))
    for k in [k for k in p if k.startswith("c.")]:
        out.append(without(k))
    for k in ("soil", "dirty", "remesh", "fast_ap", "timer", "deg", "release", "drop",
              "reverse", "guess"):
        out.append(without(k))
    for k, vs in (("rounds", (2,)), ("dim", (2,)), ("ref", (0, 1)), ("sx", (1, 2)),
                  ("sy", (1, 2)), ("sz", (1,)), ("mat", (0,)), ("bc", (0,)),
                  ("nev", (1,)), ("c.T", (2,)), ("nsm", (1,)), ("islands", (2,)),
                  ("mesh", ("rect", "cube")), ("coarse", ("direct",)),
                  ("m", (4, 8)), ("k", (1, 4)), ("n", (1, 4)), ("nagg", (2,)),
                  ("holes", (0,))):
        if k in p:
            for v in vs:
                if str(p[k]) != str(v) and (not isinstance(v, int) or int(p[k]) > v):
                    out.append(put(**{k: v}))
    if "|" in str(p.get("plan", "")):
        parts = p["plan"].split("|")
        for i in range(len(parts)):
            out.append(put(plan="|".join(parts[:i] + parts[i + 1:])))
    return [q for q in out if q]


class Pool:
    def __init__(self, exe, n=WORKERS):
        self.servers = [Server(exe) for _ in range(n)]

    def map(self, ps):
        """results of several jobs in parallel, in order"""
        res = [None] * len(ps)
        q = queue.Queue()
        for i, p in enumerate(ps):
            q.put((i, p))

        def w(s):
            while True:
                try:
                    i, p = q.get_nowait()
                except queue.Empty:
                    return
                res[i] = s.run(p)
        ts = [threading.Thread(target=w, args=(s,)) for s in self.servers]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return res

    def stop(self):
        for s in self.servers:
            s.stop()


def minimise(pool, p, j, deadline):
    """fewer parameters first, then fewer schedule decisions (ddmin)"""
    sig = signature(j)
    steps = 0

    def same(x):
        return failed(x) and signature(x) == sig

    slow = j["verdict"] == "no-progress" and "CPU" in j["msg"]
    p = dict(p)
    if not j.get("base"):
        p["seeds"] = str(j["seed"])
    else:
        p["seeds"] = "1"
    if slow:
        return p, j, steps
    # a smaller problem may need another schedule: try a few seeds on each
    extra = [] if j.get("base") else [str((int(p["seeds"]) * k) % (1 << 31))
                                      for k in (3, 5, 7, 11, 13)]
    again = True
    while again and time.time() < deadline - SHRINK_S * .5:
        again = False
        cand = []
        for c in simpler(p):
            c["seeds"] = ",".join([p["seeds"].split(",")[0]] + extra)
            cand.append(c)
        at = 0
        while at < len(cand) and time.time() < deadline - SHRINK_S * .5:
            batch = cand[at:at + WORKERS]
            rs = pool.map(batch)
            steps += len(batch)
            hit = [(c, x) for c, x in zip(batch, rs) if same(x)
                   and bool(x.get("base")) == bool(j.get("base"))]
            if hit:
                p, j = hit[0]
                p = dict(p)
                p["seeds"] = "1" if j.get("base") else str(j["seed"])
                again = True
                break
            at += WORKERS
    # base runs have no decisions to remove
    if j.get("base"):
        return p, j, steps
    on = list(j["rec"])
    p["seeds"] = str(j["seed"])

    def attempt(sets):
        nonlocal steps
        steps += len(sets)
        return pool.map([dict(p, on=",".join(s) or "-") for s in sets])

    r = attempt([on])[0]
    if not same(r):
        return p, j, steps  # replayed from the seed alone
    best, bj = on, r
    n = 2
    while len(best) > 0 and time.time() < deadline:
        size = max(1, len(best) // n)
        parts = [best[i:i + size] for i in range(0, len(best), size)]
        tries = [[x for k, q in enumerate(parts) if k != i for x in q]
                 for i in range(len(parts))]
        if n == 2:
            tries = [[]] + parts + tries
        done = False
        for at in range(0, len(tries), WORKERS):
            rs = attempt(tries[at:at + WORKERS])
            ok = [(t, x) for t, x in zip(tries[at:at + WORKERS], rs) if same(x)]
            if ok:
                best, bj = min(ok, key=lambda t: len(t[0]))
                n = max(n - 1, 2)
                done = True
                break
            if time.time() > deadline:
                break
        if not done:
            if size == 1:
                break
            n = min(len(best), n * 2)
    p["on"] = ",".join(best) or "-"
    return p, bj, steps


def fingerprint(j):
    r = j["runs"][-1] if j["runs"] else {}
    return [j["verdict"], j["msg"], r.get("hash"), r.get("ws"), r.get("steps")]


def write_replay(prop, p, j, orig, exe):
    os.makedirs(REPLAYS, exist_ok=True)
    rep = {"property": prop, "job": p, "verdict": j["verdict"], "msg": j["msg"],
           "in_undisturbed_run": bool(j.get("base")), "fingerprint": fingerprint(j),
           "found_as": orig, "decisions": p.get("on", "").count(",") + 1
           if p.get("on", "-") != "-" else 0}
    h = hashlib.sha256(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop, h))
    # the events of the failing run, for people
    tr = path[:-5] + ".trace"
    s = Server(exe)
    t = dict(p, trace=tr)
    if j.get("base"):
        t["tracebase"] = 1
    s.run(t)
    s.stop()
    try:
        with open(tr) as f:
            ev = f.readlines()
        with open(tr, "w") as f:
            f.writelines(ev[-4000:])
        rep["trace"] = tr
    except OSError:
        pass
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
    return path


def replay(path):
    exe = build()
    with open(path) as f:
        rep = json.load(f)
    s = Server(exe)
    j = s.run(rep["job"])
    s.stop()
    print("recorded: %s: %s" % (rep["verdict"], rep["msg"]))
    print("now:      %s: %s" % (j["verdict"], j["msg"]))
    if fingerprint(j) == rep["fingerprint"]:
        print("the same execution, step by step (hash %s)" % rep["fingerprint"][2])
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1
    if failed(j):
        print("a violation, but not by the same execution")
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1
    return 0 if j["status"] == "ok" else 2


# -------------------------------------------------------------- known findings
def known_findings(prop):
    """(regular expression on the message, regular expression on the job line)"""
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for l in f:
                m = re.match(r"finding: property=(\S+) msg=/(.*)/ job=/(.*)/ (.*)$",
                             l.strip())
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3), m.group(4)))
    except OSError:
        pass
    return out


def is_known(known, p, j):
    return any(re.search(a, j["msg"]) and re.search(b, line(p)) for a, b, _ in known)


# -------------------------------------------------------------------- the check
def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    exe = build()
    t_build = time.time() - t0
    known = known_findings(prop)
    for _, _, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    budget = float(os.environ.get("MFSIM_BUDGET", BUDGET[tier]))
    cap = CAP[tier]
    directed = corpus.jobs(prop, seed)
    t1 = time.time()
    deadline = t1 + budget
    lock = threading.Lock()
    state = {"next": 0, "jobs": 0, "stop": False}
    viol, errors, times = [], [], []
    agg = collections.Counter()
    hashes, ws, nontrivial = set(), set(), set()
    params = collections.defaultdict(collections.Counter)
    samples = []
    first_draws = collections.Counter()

    def take():
        with lock:
            i = state["next"]
            if state["stop"] or time.time() > deadline and i >= len(directed):
                return None
            if i >= cap + len(directed):
                return None
            state["next"] = i + 1
        if i < len(directed):
            return dict(directed[i])
        return gen.job(prop, seed, i - len(directed))

    def account(p, j, dt):
        state["jobs"] += 1
        times.append(dt)
        for k in ("scen", "mesh", "dim", "nranks", "part", "eig", "mf", "comm", "smoother",
                  "coarse", "fast_ap"):
            if k in p:
                params[k][str(p[k])] += 1
        for k, r in enumerate(j["runs"]):
            agg["runs"] += 1
            for n, v in r.items():
                if n in ("seed", "hash", "ws", "draws"):
                    continue
                if n == "ws_max_parallel":
                    agg[n] = max(agg[n], v)
                else:
                    agg[n] += v
            hashes.add(r["hash"])
            if r.get("ws_overlaps"):
                ws.add(r["ws"])
            if k == 0:
                agg["undisturbed_runs"] += 1
                continue
            agg["disturbed_runs"] += 1
            if r["draws"] or r.get("callback_throws") or r.get("alloc_failures"):
                nontrivial.add((r["hash"], r["ws"]))
                agg["runs_with_faults"] += 1
                agg["decisions"] += r["draws"]
        if len(samples) < 4 and j["runs"]:
            r = j["runs"][-1]
            samples.append({"job": line(p), "last_run": r})

    def worker(s):
        while True:
            p = take()
            if p is None:
                return
            t = time.time()
            j = s.run(p)
            if not failed(j) and j["status"] != "ok":
                j = s.run(p)  # once more: a sick machine is no verdict
            with lock:
                account(p, j, time.time() - t)
                if failed(j):
                    if is_known(known, p, j):
                        agg["known_findings_met"] += 1
                    else:
                        viol.append((p, j))
                        if len(viol) >= 12 or p.get("on"):
                            state["stop"] = True
                        elif len(viol) == 1:
                            # a moment to find a simpler one
                            threading.Timer(6., lambda: state.update(stop=True)).start()
                elif j["status"] != "ok":
                    errors.append((p, j))
                    if len(errors) > 20:
                        state["stop"] = True

    pool = Pool(exe)
    ts = [threading.Thread(target=worker, args=(s,)) for s in pool.servers]
    [t.start() for t in ts]
    [t.join() for t in ts]
    explore_s = time.time() - t1
    # which basic blocks of mfmg ran
    edges = bytearray()
    for k, s in enumerate(pool.servers):
        f = os.path.join(WORK, "edges%d.%d" % (os.getpid(), k))
        s.send("edges " + f)
        try:
            with open(f, "rb") as g:
                b = g.read()
            os.unlink(f)
            edges = bytearray(x | y for x, y in zip(edges, b)) if edges else bytearray(b)
        except OSError:
            pass
    n_edges = sum(1 for x in edges if x)

    verdict, path = 0, None
    if viol:
        # prefer the undisturbed, the small and the quick ones
        viol.sort(key=lambda v: (v[1]["verdict"] == "no-progress", int(v[0].get("nranks", 1)),
                                 not v[1].get("base"), len(v[1].get("rec", []))))
        for p, j in viol[:4]:
            q, k, steps = minimise(pool, p, j, time.time() + SHRINK_S)
            # the same execution again, in two processes that have run nothing else
            fresh = []
            for _ in range(2):
                s = Server(exe)
                fresh.append(s.run(q))
                s.stop()
            if all(failed(x) for x in fresh) and \
                    fingerprint(fresh[0]) == fingerprint(fresh[1]):
                path = write_replay(prop, q, fresh[0], {"job": line(p), "msg": j["msg"],
                                                        "shrink_runs": steps}, exe)
                verdict = 1
                print("%s: %s" % (fresh[0]["verdict"], fresh[0]["msg"]))
                print("  job: %s" % line({a: b for a, b in q.items() if a != "on"})[:600])
                if "on" in q:
                    print("  schedule and fault decisions left: %d of %d" %
                          (len([x for x in q["on"].split(",") if x not in ("", "-")]),
                           len(j.get("rec", []))))
                break
            # fall back on the job as it was found
            one = dict(p, seeds=str(j.get("seed") or 1))
            fresh = []
            for _ in range(2):
                s = Server(exe)
                fresh.append(s.run(one))
                s.stop()
            if all(failed(x) for x in fresh):
                path = write_replay(prop, one, fresh[0], {"job": line(p), "msg": j["msg"]},
                                    exe)
                verdict = 1
                print("%s: %s" % (fresh[0]["verdict"], fresh[0]["msg"]))
                break
            print("not reproducible: %s (%s)" % (j["msg"], line(p)[:300]))
    pool.stop()
    for d in (os.path.join(WORK, "out%d" % os.getpid()),):
        if os.path.isdir(d):
            for root, dirs, files in os.walk(d, topdown=False):
                for f in files:
                    os.unlink(os.path.join(root, f))
                os.rmdir(root)
    if verdict == 0 and (viol or errors):
        for p, j in errors[:3]:
            print("NO ANSWER: %s: %s (%s)" % (j["verdict"], j["msg"][:300], line(p)[:300]))
        verdict = 2

    wall = time.time() - t0
    fired = {k[2:]: v for k, v in sorted(agg.items()) if k.startswith("f_")}
    for a, b in (("callback_throws", "callback_exception"),
                 ("alloc_failures", "allocation_failure")):
        if agg[a]:
            fired[b] = agg[a]
    hours = max(explore_s, 1e-3) / 3600.
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(nontrivial),
        "rule": "Jobs are drawn from VERIF_SEED by tools/gen.py (scenario, mesh, parameters, "
                "communicator, fault and schedule rates) after the directed jobs of "
                "tools/corpus.py; every job is one undisturbed simulation and up to three "
                "with their own seeds. A disturbed run counts as non-trivial if at least one "
                "fault or schedule decision of the simulator departed from the default, and "
                "as distinct by the hash over all message, collective, callback and worker "
                "events with their simulated times.",
        "samples": samples,
        "jobs": state["jobs"],
        "directed_jobs": len(directed),
        "undisturbed_runs": agg["undisturbed_runs"],
        "disturbed_runs": agg["disturbed_runs"],
        "runs_with_faults": agg["runs_with_faults"],
        "schedule_and_fault_decisions": agg["decisions"],
        "seeds_per_hour": round(agg["disturbed_runs"] / hours),
        "runs_per_hour": round(agg["runs"] / hours),
        "simulated_seconds": round(agg["ns"] * 1e-9, 3),
        "faults_injected": fired,
        "distinct_event_histories": len(hashes),
        "distinct_thread_interleavings": len(ws),
        "simulated_mpi_calls": agg["mpi_calls"],
        "simulated_collectives": agg["collectives"],
        "point_to_point_messages": agg["p2p"],
        "unexpected_messages": agg["unexpected"],
        "rendezvous_sends": agg["rendezvous_sends"],
        "thread_switches": agg["ws_switches"],
        "overlapping_worker_steps": agg["ws_overlaps"],
        "mutex_waits": agg["ws_mutex_waits"],
        "evaluator_callbacks": agg["callbacks"],
        "scheduler_steps": agg["steps"],
        "mfmg_control_flow_edges_reached": n_edges,
        "workloads": {k: dict(v) for k, v in params.items()},
        "components": {
            "real": ["mfmg (/repo working tree, every translation unit of the host library)",
                     "deal.II, p4est, Trilinos (Epetra, EpetraExt, ML, Ifpack, Amesos, Anasazi, "
                     "Zoltan), METIS, ARPACK, LAPACK, UMFPACK"],
            "simulated": ["MPI (all calls the libraries make)", "deal.II WorkStream and its "
                          "worker threads", "mutexes", "clocks", "operator new failures",
                          "write(2) of output files"]},
        "build_s": round(t_build, 1),
        "explore_s": round(explore_s, 1),
    }
    if agg["known_findings_met"]:
        cov["known_findings_met"] = agg["known_findings_met"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": cov,
          "assumptions": corpus.ASSUMPTIONS,
          "wall_s": round(wall, 2), "violations": 1 if verdict == 1 else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d jobs, %d runs, %d distinct disturbed executions, %.0f s" %
          (prop, tier, state["jobs"], agg["runs"], len(nontrivial), wall))
    if verdict == 1:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return verdict


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) != 3 or sys.argv[2] not in BUDGET or sys.argv[1] not in gen.GEN:
        print(__doc__)
        sys.exit(2)
    sys.exit(check(sys.argv[1], sys.argv[2]))
