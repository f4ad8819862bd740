#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  run.py CHECK_ID               run a check (VERIF_SEED, VERIF_TIER from the environment)
  run.py --setup                build every harness
  run.py --replay FILE          replay a violation recorded by a check

Exit 0: the property held on everything explored. Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it does not hold. Exit 2: the check
itself could not run.
"""
import array, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")
sys.path.insert(0, VERIF)
from checks import CHECKS, BINARIES  # noqa: E402

NW = 8


def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)


# ---- Build ------------------------------------------------------------------
def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def sources():
    out = []
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), SIM):
        for d, _, files in os.walk(root):
            out += [os.path.join(d, f) for f in files if f.endswith((".h", ".hpp", ".cpp", ".c"))]
    return out


FLAGS = {
    "plain": ["-O1", "-g1", "-ftrivial-auto-var-init=pattern"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
             "-fno-sanitize=vptr", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}


def build(binary, variant):
    """Build a harness from the working tree of the repository; returns its path."""
    spec = BINARIES[binary]
    key = hashlib.sha256((tree_hash(sources()) + json.dumps([spec, FLAGS[variant]])
                          + binary + variant).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, f"{binary}-{variant}-{key}")
    exe = os.path.join(d, binary)
    if os.path.exists(os.path.join(d, ".ok")):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    # keep the build folder small
    old = sorted((e for e in os.scandir(BUILD) if e.is_dir() and e.name.startswith(f"{binary}-{variant}-")),
                 key=lambda e: e.stat().st_mtime)
    for e in old[:-2]:
        shutil.rmtree(e.path, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    jobs = []
    inc = ["-I", os.path.join(REPO, "include"), "-I", SIM] + [
        x for i in spec.get("include", []) for x in ("-I", os.path.join(SIM, i))]
    base = ["g++", "-std=c++17", "-pthread", "-w"] + inc
    units = []
    for src, defs in spec["sources"]:
        if src == "REPO/src/adevs.cpp":     # all of the library
            d2 = os.path.join(REPO, "src")
            units += [("REPO/src/" + f, defs) for f in sorted(os.listdir(d2)) if f.endswith((".cpp", ".cc", ".cxx"))]
        else:
            units.append((src, defs))
    for i, (src, defs) in enumerate(units):
        plain_src = src.endswith("!")       # never instrumented
        src = src.rstrip("!")
        path = src.replace("REPO/", REPO + "/") if src.startswith("REPO/") else os.path.join(SIM, src)
        fl = FLAGS["plain"] if plain_src and variant == "tsan" else FLAGS[variant]
        obj = os.path.join(tmp, f"o{i}.o")
        jobs.append((base + fl + defs + ["-c", path, "-o", obj], obj))

    def one(j):
        return subprocess.run(j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    with ThreadPoolExecutor(NW) as ex:
        for j, r in zip(jobs, ex.map(one, jobs)):
            if r.returncode:
                sys.stdout.write(r.stdout.decode(errors="replace")[-4000:])
                shutil.rmtree(tmp, ignore_errors=True)
                die("build failed: " + " ".join(j[0]))
    link = ["g++", "-pthread"] + [j[1] for j in jobs] + ["-o", os.path.join(tmp, binary)]
    if variant == "tsan":   # the runtime is that of the harness; names for its reports
        link += ["-rdynamic"]
    if variant == "asan":
        link += FLAGS["asan"]
    link += spec.get("libs", []) + ["-ldl"]
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stdout.write(r.stdout.decode(errors="replace")[-4000:])
        shutil.rmtree(tmp, ignore_errors=True)
        die("link failed")
    for _, o in jobs:
        os.unlink(o)
    open(os.path.join(tmp, ".ok"), "w").close()
    shutil.rmtree(d, ignore_errors=True)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


# ---- Running the harness ----------------------------------------------------
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:handle_abort=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98", LC_ALL="C.UTF-8")


def limits(variant):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if variant != "asan":
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    return f


def crash_class(rc, out, err):
    text = (out + "\n" + err)
    if rc == 77 or "VSIM-HANG" in text:
        return "hang", "the code under test did not return (CPU time limit)"
    if "VSIM-BADFREE" in text:
        return "bad-free", "release of memory that was not allocated or is already released"
    m = re.search(r"AddressSanitizer: ([\w-]+)", text)
    if m:
        return "asan-" + m.group(1), (re.search(r"ERROR: AddressSanitizer.*", text) or m).group(0)
    m = re.search(r"([\w./-]+:\d+:\d+: runtime error: .*)", text)
    if m:
        return "ubsan", m.group(1)
    m = re.search(r"Assertion .* failed\.", text)
    if m:
        return "assert", m.group(0)
    m = re.search(r"terminate called .*", text)
    if m:
        return "terminate", m.group(0) + " " + " ".join(re.findall(r"what\(\):.*", text)[:1])
    if rc < 0:
        return "signal", "killed by signal %d (%s)" % (-rc, signal.Signals(-rc).name)
    return "exit", "exit code %d: %s" % (rc, text[-400:])


def replay_tape(exe, variant, prop, tape, trace=False, thorough=False):
    with tempfile.NamedTemporaryFile("w", suffix=".tape", delete=False, dir=BUILD) as f:
        f.write(" ".join(map(str, tape)))
    try:
        cmd = [exe, "--prop", prop, "--replay", f.name] + (["--trace"] if trace else []) + \
              (["--thorough"] if thorough else [])
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV,
                               preexec_fn=limits(variant), timeout=180)
            rc, out, err = p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, out, err = 77, "", ""
    finally:
        os.unlink(f.name)
    lines = [l[2:] for l in out.splitlines() if l.startswith("T ")]
    m = re.search(r"^RESULT (.*)$", out, re.M)
    if rc in (0, 10) and m:
        r = json.loads(m.group(1))
        return {"bad": r["rc"] == 1, "cls": r["cls"], "msg": r["msg"], "hash": r["hash"],
                "draws": r["draws"], "trace": lines}
    cls, msg = crash_class(rc, out, err)
    return {"bad": True, "cls": cls, "msg": msg, "hash": "", "draws": len(tape), "trace": lines,
            "stderr": err[-3000:]}


def read_state(path):
    with open(path, "rb") as f:
        head = array.array("Q")
        head.frombytes(f.read(32))
        run, active, seed, n = head
        t = array.array("I")
        t.frombytes(f.read(4 * n))
    return run, active, list(t)


def shrink(exe, variant, prop, tape, cls, seconds, thorough):
    """Make the tape smaller and simpler while the same violation remains."""
    t_end = time.time() + seconds
    tests = 0

    def bad(t):
        r = replay_tape(exe, variant, prop, t, thorough=thorough)
        return r["bad"] and r["cls"] == cls

    def first(cands):
        # evaluate candidates in parallel batches, keep the first that works
        nonlocal tests
        for i in range(0, len(cands), NW):
            if time.time() > t_end:
                return None
            part = cands[i:i + NW]
            tests += len(part)
            with ThreadPoolExecutor(NW) as ex:
                for c, ok in zip(part, list(ex.map(bad, part))):
                    if ok:
                        return c
        return None

    best = list(tape)
    while best and best[-1] == 0:
        best.pop()
    improved = True
    while improved and time.time() < t_end:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < t_end:
            i = len(best)
            while i > 0 and time.time() < t_end:
                cands = []
                j = i
                for _ in range(NW):
                    if j <= 0:
                        break
                    lo = max(0, j - size)
                    cands.append(best[:lo] + best[j:])
                    j = lo
                got = first(cands)
                if got is not None:
                    best = got
                    improved = True
                    i = min(i, len(best))
                else:
                    i = j
            size //= 2
        size = max(1, len(best) // 4)
        while size >= 1 and time.time() < t_end:
            i = 0
            while i < len(best) and time.time() < t_end:
                cands, spans = [], i
                for _ in range(NW):
                    if i >= len(best):
                        break
                    if any(best[i:i + size]):
                        cands.append(best[:i] + [0] * len(best[i:i + size]) + best[i + size:])
                    i += size
                if cands:
                    got = first(cands)
                    if got is not None:
                        best = got
                        improved = True
                        i = spans + size
            size //= 2
        i = 0
        while i < len(best) and time.time() < t_end:
            v = best[i]
            if v > 1:
                got = first([best[:i] + [x] + best[i + 1:] for x in sorted({v // 2, v - 1, 1})])
                if got is not None:
                    best = got
                    improved = True
                    continue
            i += 1
        while best and best[-1] == 0:
            best.pop()
    return best, tests


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+)\s+(.*)", line)
            if m:
                out.append({"property": m.group(1), "key": m.group(2), "what": m.group(3).strip()})
    return out


def run_workers(jobs, budget):
    """jobs: list of (exe, variant, args). Returns a list of results."""
    res = []
    procs = []
    for i, (exe, variant, args, prefix) in enumerate(jobs):
        out = open(prefix + ".out", "wb")
        err = open(prefix + ".err", "wb")
        p = subprocess.Popen([exe] + args + ["--state", prefix + ".state", "--out", prefix],
                             stdout=out, stderr=err, env=ENV, preexec_fn=limits(variant))
        procs.append((p, out, err, exe, variant, prefix))
    deadline = time.time() + budget + 90
    for p, out, err, exe, variant, prefix in procs:
        try:
            rc = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 77
        out.close()
        err.close()
        o = open(prefix + ".out", errors="replace").read()
        e = open(prefix + ".err", errors="replace").read()
        m = re.search(r"^STATS (.*)$", o, re.M)
        r = {"rc": rc, "exe": exe, "variant": variant, "prefix": prefix, "stats": json.loads(m.group(1)) if m else None}
        if rc == 10 and r["stats"]:
            r["cls"], r["msg"] = r["stats"]["cls"], r["stats"]["msg"]
        elif rc != 0:
            r["cls"], r["msg"] = crash_class(rc, o, e)
        res.append(r)
    return res


def load_set(path, into):
    try:
        a = array.array("Q")
        with open(path, "rb") as f:
            a.frombytes(f.read())
        into.update(a)
    except OSError:
        pass


def report(prop, spec, info, replay):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    name = hashlib.sha256(json.dumps(replay, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(VERIF, "replays", f"{prop}-{name}.json")
    with open(path, "w") as f:
        json.dump(replay, f, indent=1)
    print(f"violated: {info['cls']}: {info['msg'][:1500]}")
    for l in replay.get("trace", [])[-40:]:
        print("   ", l)
    print(f"VIOLATION property={prop} replay={path}", flush=True)
    return path


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[prop]
    thorough = tier == "thorough"
    budget = float(os.environ.get("VERIF_BUDGET", spec["thorough_s" if thorough else "quick_s"]))
    plan = spec["plan"]  # list of (binary, variant, workers)
    exes = {}
    for b, v, _ in plan:
        exes[(b, v)] = build(b, v)
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix=f"run-{prop}-", dir=BUILD)
    rc = 0
    try:
        jobs = []
        groups = {}
        for b, v, n in plan:
            groups[(b, v)] = n
        at = 0
        for (b, v), n in groups.items():
            for i in range(n):
                args = ["--prop", prop, "--seed", str(seed), "--start", str(i), "--stride", str(n),
                        "--budget", str(budget)] + (["--thorough"] if thorough else [])
                if v != "plain":  # other runs than the plain build makes
                    args[args.index("--start") + 1] = str(i + (1 << 40) * (1 + list(FLAGS).index(v)))
                jobs.append((exes[(b, v)], v, args, os.path.join(scratch, f"w{at}")))
                at += 1
        # The same seed must give the same history: the same runs in one process, and
        # dealt to three others
        same = []
        b, v, n = plan[0]
        for k, parts in enumerate((1, 3)):
            js = []
            for i in range(parts):
                js.append((exes[(b, v)], v, ["--prop", prop, "--seed", str(seed), "--start", str(i), "--stride", str(parts),
                                             "--max", str(60 // parts), "--budget", "10"] +
                           (["--thorough"] if thorough else []), os.path.join(scratch, f"d{k}-{i}")))
            rs = run_workers(js, 20)
            s = set()
            for job in js:
                load_set(job[3] + ".hist", s)
            same.append((max(r["rc"] for r in rs), s, sum((r["stats"] or {}).get("runs", 0) for r in rs)))
        repeatable = same[0][0] != 0 or same[1][0] != 0 or same[0][2] != same[1][2] or same[0][1] == same[1][1]
        res = run_workers(jobs, budget)
        bad = [r for r in res if r["rc"] != 0]
        explored = time.time() - t0 - t_build
        violation = None
        if bad:
            violation = settle(prop, spec, seed, thorough, bad, groups)
            rc = 1
        elif not repeatable and spec.get("repeatable_is_property"):
            replay = {"property": prop, "kind": "sequence", "binary": b, "variant": v, "seed": seed,
                      "start": 0, "stride": 1, "max": 60, "cls": "not-repeatable",
                      "msg": "the same seed gave different histories in two processes", "trace": []}
            violation = report(prop, spec, replay, replay)
            rc = 1
        write_evidence(prop, spec, tier, seed, res, budget, explored, t_build, time.time() - t0,
                       repeatable, 1 if rc else 0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if rc == 0:
        for k in known_findings():
            if k["property"] == prop:
                print(f"KNOWN-FINDING: property={prop} {k['key']}: {k['what']}")
        print(f"{prop} held on everything explored ({time.time() - t0:.0f} s)")
    return rc


def settle(prop, spec, seed, thorough, bad, groups):
    """Confirm a violation in fresh processes, minimise it and record it."""
    bad.sort(key=lambda r: r["stats"]["bad_run"] if r.get("stats") else 0)
    first_unconfirmed = None
    for r in bad:
        binary = [b for (b, v) in groups if v == r["variant"]][0]
        n = groups[(binary, r["variant"])]
        run, active, tape = read_state(r["prefix"] + ".state")
        base = {"property": prop, "binary": binary, "variant": r["variant"], "seed": seed, "run": run,
                "thorough": thorough}
        a = replay_tape(r["exe"], r["variant"], prop, tape, thorough=thorough)
        b = replay_tape(r["exe"], r["variant"], prop, tape, thorough=thorough)
        if a["bad"] and b["bad"] and a["cls"] == b["cls"]:
            secs = 8 if a["cls"] == "hang" else spec.get("shrink_s", 20)
            small, tests = shrink(r["exe"], r["variant"], prop, tape, a["cls"], secs, thorough)
            fin = replay_tape(r["exe"], r["variant"], prop, small, trace=True, thorough=thorough)
            fin2 = replay_tape(r["exe"], r["variant"], prop, small, trace=True, thorough=thorough)
            if not (fin["bad"] and fin["cls"] == a["cls"]):
                small = tape
                fin = fin2 = replay_tape(r["exe"], r["variant"], prop, small, trace=True, thorough=thorough)
            replay = dict(base, kind="tape", tape=small, original_length=len(tape), shrink_tests=tests,
                          exact=fin["hash"] == fin2["hash"], cls=fin["cls"], msg=fin["msg"],
                          hash=fin["hash"], trace=fin["trace"])
            return report(prop, spec, fin, replay)
        # Not a matter of this run alone? Repeat the runs that came before it.
        start = run % n if run < (1 << 40) else (1 << 40) * (run >> 40) + (run & ((1 << 40) - 1)) % n
        count = (run - start) // n + 1
        for span in (2, 16, 256, 4096, count):
            span = min(span, count)
            s0 = run - (span - 1) * n
            q = replay_sequence(r["exe"], r["variant"], prop, seed, s0, n, span, thorough)
            if q["bad"]:
                replay = dict(base, kind="sequence", start=s0, stride=n, max=span, cls=q["cls"], msg=q["msg"],
                              trace=[])
                return report(prop, spec, q, replay)
            if span == count:
                break
        if first_unconfirmed is None:
            first_unconfirmed = dict(base, kind="tape", tape=tape, cls=r["cls"], exact=False,
                                     msg=r["msg"] + " (seen once; replay gives another result, "
                                     "so the code under test is not deterministic)", trace=[])
    return report(prop, spec, first_unconfirmed, first_unconfirmed)


def replay_sequence(exe, variant, prop, seed, start, stride, count, thorough=False):
    d = tempfile.mkdtemp(prefix="seq-", dir=BUILD)
    try:
        r = run_workers([(exe, variant, ["--prop", prop, "--seed", str(seed), "--start", str(start),
                                         "--stride", str(stride), "--max", str(count), "--budget", "300"] +
                          (["--thorough"] if thorough else []), os.path.join(d, "w"))], 300)[0]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"bad": r["rc"] != 0, "cls": r.get("cls", ""), "msg": r.get("msg", "")}


def write_evidence(prop, spec, tier, seed, res, budget, explored, t_build, wall, repeatable, violations):
    runs = nontriv = disc = 0
    sim = cpu = 0.0
    faults, counters, with_ = {}, {}, {}
    samples = []
    hist, states = set(), set()
    per_variant = {}
    for r in res:
        load_set(r["prefix"] + ".hist", hist)
        load_set(r["prefix"] + ".states", states)
        s = r["stats"]
        if not s:
            continue
        runs += s["runs"]
        nontriv += s["nontrivial"]
        disc += s["discarded"]
        sim += s["sim_time"]
        cpu += s["wall"]
        per_variant[r["variant"]] = per_variant.get(r["variant"], 0) + s["runs"]
        for src, dst in ((s["faults"], faults), (s["counters"], counters), (s["runs_with"], with_)):
            for k, x in src.items():
                dst[k] = dst.get(k, 0) + x
        samples += s["samples"][:1]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(hist),
            "rule": spec["rule"],
            "samples": [s[:3000] for s in samples[:3]] or ["(no sample: stopped early)"],
            "runs_nontrivial": nontriv,
            "runs_discarded": disc,
            "runs_per_build": per_variant,
            "runs_per_hour": int(runs / max(explored, 1e-6) * 3600),
            "seeds_per_hour": int(runs / max(explored, 1e-6) * 3600),
            "simulated_time_units": round(sim, 3),
            "faults_injected": faults,
            "runs_with_feature": with_,
            "events": counters,
            "distinct_states": len(states),
            "distinct_states_measure": spec.get("state_measure", "hash of (kinds of transition, elapsed times, input sizes, structure of the network)"),
            "same_seed_same_history": repeatable,
            "real_components": spec["real"],
            "stub_components": spec["stub"],
            "worker_seconds": round(cpu, 1),
            "build_s": round(t_build, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(p + ".tmp", p)


def replay_file(path):
    r = json.load(open(path))
    exe = build(r["binary"], r["variant"])
    if r["kind"] == "tape":
        x = replay_tape(exe, r["variant"], r["property"], r["tape"], trace=True, thorough=r.get("thorough", False))
        for l in x["trace"]:
            print("   ", l)
        same = x["bad"] and x["cls"] == r["cls"] and (not r.get("hash") or x["hash"] == r["hash"])
    else:
        x = replay_sequence(exe, r["variant"], r["property"], r["seed"], r["start"], r["stride"], r["max"],
                            r.get("thorough", False))
        same = x["bad"] and x["cls"] == r["cls"]
    if x["bad"]:
        print(f"{x['cls']}: {x['msg']}")
        print("reproduced exactly" if same else "a violation, but not the recorded one")
        print(f"VIOLATION property={r['property']} replay={os.path.abspath(path)}")
        return 1
    print("no violation")
    return 0


def main():
    os.makedirs(BUILD, exist_ok=True)
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        seen = []
        for p, s in CHECKS.items():
            for b, v, _ in s["plan"]:
                if (b, v) not in seen:
                    seen.append((b, v))
        for b, v in seen:
            t = time.time()
            build(b, v)
            print(f"built {b} ({v}) in {time.time() - t:.1f} s", flush=True)
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay_file(sys.argv[2])
    if len(sys.argv) == 2 and sys.argv[1] in CHECKS:
        return check(sys.argv[1])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
