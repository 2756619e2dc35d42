"""Runs batches of simulated executions, gates and minimises violations, writes evidence."""
import array, glob, json, os, re, subprocess, sys, time, concurrent.futures as cf
import build as B
from plan import PLAN

VERIF = B.VERIF
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
ENV = dict(os.environ, LC_ALL="C")
ENV.pop("SIM_REEXEC", None)
ENV.pop("SIM_WASM", None)
EVBASE = ["The machine is simulated as sequentially consistent; compiler and weak-memory reorderings are not explored.",
          "Preemption happens at lock, condition-variable, thread and host-call boundaries and at instrumented memory accesses of toywasm code."]


def run(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=ENV, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) scenario=(\S+) kind=(\S+) match=/(.*)/ :: (.*)", l)
            if m:
                out.append(m.groups())
    return out


def match_known(known, prop, scen, kind, msg):
    for k in known:
        if k[0] == prop and (k[1] == "*" or k[1] == scen) and k[2] == kind and re.search(k[3], msg):
            return k
    return None


class Stats:
    def __init__(self):
        self.n = {}
        self.faults, self.fruns, self.probes = {}, {}, {}
        self.samples, self.viol, self.err = [], [], []
        self.sched, self.trace = set(), set()
        self.cov, self.pairs = bytearray(65536), bytearray(65536)
        self.guards = 0
        self.mix = 0
        self.done = True

    def parse(self, out, scen, variant):
        ok = False
        for l in out.splitlines():
            w = l.split(" ")
            if w[0] == "V":
                self.viol.append((scen, variant, int(w[1]), w[2], " ".join(w[3:])))
            elif w[0] == "E":
                self.err.append((scen, variant, int(w[1]), " ".join(w[2:])))
            elif w[0] == "fault":
                self.faults[w[1]] = self.faults.get(w[1], 0) + int(w[2])
                self.fruns[w[1]] = self.fruns.get(w[1], 0) + int(w[3])
            elif w[0] == "probe":
                self.probes[w[1]] = self.probes.get(w[1], 0) + int(w[2])
            elif w[0] == "sample":
                self.samples.append("%s/%s %s" % (scen, variant, l[7:]))
            elif w[0] == "mixhash":
                self.mix ^= int(w[1], 16)
            elif w[0] == "guards":
                self.guards = max(self.guards, int(w[1]))
            elif w[0] == "done":
                ok = True
            elif len(w) == 2 and w[0] != "wall":
                self.n[w[0]] = self.n.get(w[0], 0) + int(w[1])
        return ok

    def absorb(self, path):
        d = open(path, "rb").read()
        os.unlink(path)
        for m, dst in ((d[:65536], self.cov), (d[65536:131072], self.pairs)):
            x = int.from_bytes(m, "little") | int.from_bytes(dst, "little")
            dst[:] = x.to_bytes(65536, "little")
        a = array.array("Q")
        a.frombytes(d[131072:])
        for i in range(0, len(a), 3):
            self.sched.add(a[i])
            if a[i + 2]:
                self.trace.add(a[i + 1])


def one_batch(exe, scen, variant, seed, start, stride, count, limit, tag, known=""):
    out = os.path.join(VERIF, "build", "out-%d-%s" % (os.getpid(), tag))
    cmd = [exe, "batch", scen, str(seed), str(start), str(count), "--stride", str(stride), "--limit", "%.1f" % limit, "--out", out, "--known", known]
    try:
        rc, txt = run(cmd, timeout=limit + 400)
    except subprocess.TimeoutExpired:
        rc, txt = 99, "E 0 batch timed out"
    return scen, variant, rc, txt, out


def parse_result(txt):
    r = {}
    for l in txt.splitlines():
        k, _, v = l.partition(" ")
        r.setdefault(k, v)
    return r


def write_replay(path, prop, scen, variant, seed, index, mask, decs, res):
    with open(path, "w") as f:
        f.write("toywasm-sim-replay 1\nproperty %s\nscenario %s\nvariant %s\nseed %d\nindex %d\n" % (prop, scen, variant, seed, index))
        if mask:
            f.write("mask %s\n" % " ".join(map(str, sorted(mask))))
        for d in decs:
            f.write(d + "\n")
        if res:
            f.write("expect-kind %s\nexpect-hash %s\n# %s\n" % (res.get("kind"), res.get("hash"), res.get("msg")))


class Minimiser:
    def __init__(self, exe, prop, scen, variant, seed, index, kind, decs, genops, budget, known):
        self.a = (prop, scen, variant, seed, index)
        self.exe, self.kind, self.budget, self.known = exe, kind, time.time() + budget, known
        self.decs, self.mask, self.genops = decs, set(), genops
        self.n = 0

    def test(self, mask, decs, w):
        p = os.path.join(VERIF, "build", "min-%d-%d" % (os.getpid(), w))
        write_replay(p, *self.a, mask, decs, None)
        try:
            rc, txt = run([self.exe, "replay", p], timeout=200)
        except subprocess.TimeoutExpired:
            return False
        finally:
            os.unlink(p)
        r = parse_result(txt)
        if r.get("status") != "violation" or r.get("kind") != self.kind:
            return False
        return match_known(self.known, self.a[0], self.a[1], r["kind"], r.get("msg", "")) is None

    def ddmin(self, items, mk):
        """smallest subset (heuristically) for which mk(subset) still fails; tests run in parallel"""
        n = 2
        with cf.ThreadPoolExecutor(JOBS) as ex:
            if items and self.test(*mk([]), 0):
                return []
            while len(items) >= 2 and time.time() < self.budget:
                size = max(1, len(items) // n)
                chunks = [items[i:i + size] for i in range(0, len(items), size)]
                found = None
                for base in range(0, len(chunks), JOBS):
                    if time.time() > self.budget:
                        return items
                    group = list(range(base, min(base + JOBS, len(chunks))))
                    cands = [[x for j, c in enumerate(chunks) if j != i for x in c] for i in group]
                    futs = [ex.submit(self.test, *mk(c), k) for k, c in enumerate(cands)]
                    res = [f.result() for f in futs]
                    self.n += len(res)
                    for c, r in zip(cands, res):
                        if r:
                            found = c
                            break
                    if found is not None:
                        break
                if found is not None:
                    items = found
                    n = max(n - 1, 2)
                elif size == 1:
                    break
                else:
                    n = min(len(items), n * 2)
        return items

    def go(self):
        allops = list(range(self.genops))
        if 0 < self.genops <= 3000:
            keep = self.ddmin(allops, lambda s: (set(allops) - set(s), self.decs))
            self.mask = set(allops) - set(keep)
        for pre in ("dec F", "dec S"):
            part = [d for d in self.decs if d.startswith(pre)]
            rest = [d for d in self.decs if not d.startswith(pre)]
            part = self.ddmin(part, lambda s: (self.mask, rest + s))
            self.decs = rest + part
        if self.genops and time.time() < self.budget:
            ops = [o for o in allops if o not in self.mask]
            keep = self.ddmin(ops, lambda s: (set(allops) - set(s), self.decs))
            self.mask = set(allops) - set(keep)


def gate_and_report(prop, exe, v, seed, known, tier):
    """Returns the replay path, or None when the violation does not reproduce exactly."""
    scen, variant, index, kind, msg = v
    dump = os.path.join(VERIF, "build", "dump-%d" % os.getpid())
    t0 = time.time()
    with cf.ThreadPoolExecutor(2) as ex:
        futs = [ex.submit(run, [exe, "one", scen, str(seed), str(index), "--dump", dump + x]) for x in ("", "b")]
        rs = [parse_result(f.result()[1]) for f in futs]
    took = time.time() - t0
    if os.path.exists(dump + "b"):
        os.unlink(dump + "b")
    if any(r.get("status") != "violation" or r.get("kind") != kind for r in rs) or rs[0]["hash"] != rs[1]["hash"]:
        print("error: %s run %d of %s/%s did not repeat: %s" % (prop, index, scen, variant, rs), file=sys.stderr)
        return None
    decs = [l.strip() for l in open(dump)]
    os.unlink(dump)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%s-%s-s%d-%d.replay" % (prop, scen.replace("+", "_"), variant, seed, index))
    write_replay(path, prop, scen, variant, seed, index, set(), decs, rs[0])
    rc, txt = run([exe, "replay", path])
    r = parse_result(txt)
    if r.get("status") != "violation" or r.get("kind") != kind:
        print("error: replay of %s run %d of %s/%s did not reproduce: %s" % (prop, index, scen, variant, r), file=sys.stderr)
        return None
    mi = Minimiser(exe, prop, scen, variant, seed, index, kind, decs, int(rs[0].get("genops", 0)),
                   (60 if took < 10 else 30) if tier == "quick" else 240, known)
    mi.go()
    tmp = path + ".tmp"
    write_replay(tmp, prop, scen, variant, seed, index, mi.mask, mi.decs, None)
    with cf.ThreadPoolExecutor(2) as ex:
        a, b = [parse_result(r[1]) for r in ex.map(run, [[exe, "replay", tmp]] * 2)]
    os.unlink(tmp)
    if a.get("hash") == b.get("hash") and a.get("status") == "violation" and a.get("kind") == kind:
        write_replay(path, prop, scen, variant, seed, index, mi.mask, mi.decs, a)
        r = a
    nf = sum(d.startswith("dec F") for d in mi.decs)
    ns = sum(d.startswith("dec S") for d in mi.decs)
    print("%s: %s in %s/%s seed %d run %d: %s" % (prop, kind, scen, variant, seed, index, r.get("msg", msg)))
    print("minimised to %d of %s operations, %d faults, %d scheduling decisions (%d trials)"
          % (int(rs[0].get("genops", 0)) - len(mi.mask), rs[0].get("genops", 0), nf, ns, mi.n))
    return path


def check(prop, tier):
    t0 = time.time()
    plan = PLAN[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    level = plan.get("level", "exploration")
    parts = plan["runs"]
    try:
        exes = B.build(sorted({v for _, v, _ in parts}))
    except RuntimeError as e:
        print("error: cannot build the simulator\n%s" % e, file=sys.stderr)
        return 2
    tb = time.time()
    st = Stats()
    total = plan.get("quick_s", 40) if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "600"))
    mult = 1 if tier == "quick" else 1000
    known = known_findings()
    kinds, xkinds = plan.get("kinds"), plan.get("not_kinds", ())
    seen_known = {}
    viol = None
    wsum = sum(w for _, _, w in parts)
    det = {"checked": 0, "agree": True}

    def relevant(v):
        if kinds is not None and v[3] not in kinds:
            return False
        return v[3] not in xkinds

    # the parts share the time in proportion to their weight; a part's run count is capped so that
    # on an idle machine the explored set depends on the seed only
    runs_by_part = {}
    for pi, (scen, variant, w) in enumerate(parts):
        budget = total * w / wsum
        kk = ",".join(k[2] for k in known if k[0] == prop and k[1] in ("*", scen))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(one_batch, exes[variant], scen, variant, seed, k, JOBS, 2000000, budget, "%d-%d" % (pi, k), kk) for k in range(JOBS)]
            for f in futs:
                s, vr, rc, txt, out = f.result()
                n0 = st.n.get("runs", 0)
                ok = st.parse(txt, s, vr)
                runs_by_part["%s/%s" % (s, vr)] = runs_by_part.get("%s/%s" % (s, vr), 0) + st.n.get("runs", 0) - n0
                if not ok:
                    st.err.append((s, vr, -1, "batch ended with %d: %s" % (rc, txt[-300:])))
                if os.path.exists(out):
                    st.absorb(out)
        # determinism sample: the same run numbers in different processes
        nd = 24 if tier == "quick" else 400
        if any(v[0] == scen and v[1] == variant and relevant(v) for v in st.viol):
            nd = 0  # every violation is repeated before it is reported
        a, b = Stats(), Stats()
        if nd:
            a.parse(one_batch(exes[variant], scen, variant, seed, 0, 1, nd, 60, "d")[3], scen, variant)
        for k in range(2 if nd else 0):
            b.parse(one_batch(exes[variant], scen, variant, seed, k, 2, nd // 2, 60, "e")[3], scen, variant)
        for x in glob.glob(os.path.join(VERIF, "build", "out-%d-[de]" % os.getpid())):
            os.unlink(x)
        if nd and a.n.get("runs") == nd and b.n.get("runs") == nd:
            det["checked"] += nd
            if a.mix != b.mix:
                det["agree"] = False
                print("warning: %s/%s: repeated runs differ" % (scen, variant), file=sys.stderr)
        for v in sorted(st.viol, key=lambda v: v[2]):
            if viol is not None or v[0] != scen or v[1] != variant or not relevant(v):
                continue
            k = match_known(known, prop, v[0], v[3], v[4])
            if k is not None:
                seen_known[k] = seen_known.get(k, 0) + 1
                continue
            p = gate_and_report(prop, exes[variant], v, seed, known, tier)
            if p is not None:
                viol = p
            else:
                st.err.append((scen, variant, v[2], "not reproducible"))
        if viol is not None:
            break
    wall = time.time() - t0
    sim_wall = max(0.001, time.time() - tb)
    runs = st.n.get("runs", 0)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(st.trace),
            "rule": "distinct hashes of the execution trace (context switches with their position, guest operations and results, "
                    "injected faults) among runs with at least one context switch or injected fault",
            "samples": st.samples[:8] or ["none"],
            "runs_by_scenario_and_variant": runs_by_part,
            "runs_per_hour": int(runs / sim_wall * 3600),
            "seeds_per_hour": int(runs / sim_wall * 3600),
            "simulated_seconds": round(st.n.get("vtime", 0) / 1e9, 3),
            "faults_injected": st.faults,
            "runs_with_fault": st.fruns,
            "distinct_interleavings": len(st.sched),
            "context_switches": st.n.get("switches", 0),
            "threads_started": st.n.get("fibers", 0),
            "guest_operations_recorded": st.n.get("ops", 0),
            "host_calls": st.n.get("sys", 0),
            "allocations": st.n.get("allocs", 0),
            "instrumented_accesses": st.n.get("ticks", 0),
            "edges_covered": sum(st.cov), "edges_total": st.guards,
            "preemption_pairs": sum(st.pairs),
            "probes": st.probes,
            "determinism": {"runs_repeated_in_other_processes": det["checked"], "all_equal": det["agree"]},
            "components": plan.get("components", {
                "real": ["toywasm lib, libwasi, libwasi_threads, libdyld and cli sources compiled from /repo"],
                "stub": ["libc allocation, threads, clocks, files, sockets and stdio are replaced by the simulator"]}),
        },
        "assumptions": EVBASE + plan.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 0 if viol is None else 1,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k, n in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, k[4]))
    # findings that this seed did not happen to meet are still listed
    for k in known:
        if k[0] == prop and k not in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[4]))
    if viol is not None:
        print("VIOLATION property=%s replay=%s" % (prop, viol))
        return 1
    if st.err or runs == 0:
        print("error: %s" % (st.err[:3] or "no runs"), file=sys.stderr)
        return 2
    print("%s held on %d simulated runs (%d distinct), %.0f simulated seconds, %.0f s" % (prop, runs, len(st.trace), st.n.get("vtime", 0) / 1e9, wall))
    return 0


def replay(path):
    meta = {}
    for l in open(path):
        k, _, v = l.strip().partition(" ")
        meta.setdefault(k, v)
    exe = B.build([meta["variant"]])[meta["variant"]]
    extra = ["-v"] if os.environ.get("VERBOSE") else []
    if extra:
        subprocess.run([exe, "replay", path] + extra)
        return 0
    r = parse_result(run([exe, "replay", path])[1])
    print("status=%s kind=%s hash=%s\n%s" % (r.get("status"), r.get("kind"), r.get("hash"), r.get("msg")))
    if r.get("status") == "violation" and r.get("kind") == meta.get("expect-kind"):
        print("reproduced%s" % (" exactly" if r.get("hash") == meta.get("expect-hash") else " (different trace)"))
        print("VIOLATION property=%s replay=%s" % (meta["property"], path))
        return 1
    return 0


def selftest(n):
    n -= n % 6
    parts = sorted({(s, v) for p in PLAN.values() for s, v, _ in p["runs"]})
    exes = B.build(sorted({v for _, v in parts}))
    bad = 0
    for scen, variant in parts:
        a, b = Stats(), Stats()
        with cf.ThreadPoolExecutor(JOBS) as ex:
            fa = [ex.submit(one_batch, exes[variant], scen, variant, 7, k, 2, n // 2, 600, "sa%d" % k) for k in range(2)]
            fb = [ex.submit(one_batch, exes[variant], scen, variant, 7, k, 6, n // 6, 600, "sb%d" % k) for k in range(6)]
            for f in fa:
                a.parse(f.result()[3], scen, variant)
            for f in fb:
                b.parse(f.result()[3], scen, variant)
        for x in glob.glob(os.path.join(VERIF, "build", "out-%d-s*" % os.getpid())):
            os.unlink(x)
        ok = a.mix == b.mix and a.n.get("runs") == b.n.get("runs")
        bad += not ok
        print("%s/%s: %s runs, %s" % (scen, variant, a.n.get("runs"), "identical" if ok else "DIFFER"), flush=True)
    return 1 if bad else 0


def main(a):
    if a[:1] == ["--setup"]:
        try:
            B.build(sorted({v for p in PLAN.values() for _, v, _ in p["runs"]}))
        except RuntimeError as e:
            print(e, file=sys.stderr)
            return 2
        return 0
    if a[:1] == ["--replay"] and len(a) == 2:
        return replay(a[1])
    if a[:1] == ["--selftest"]:
        return selftest(int(a[1]) if len(a) > 1 else 600)
    if len(a) == 2 and a[0] in PLAN and a[1] in ("quick", "thorough"):
        return check(a[0], a[1])
    print(__doc__ or "usage", file=sys.stderr)
    return 2
