#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decide one property of /repo.

Builds LLVM IR of the harness plus nanvm-lib from /repo's working tree, lets
the symbolic executor (engine/) decide every harness case, replays what it
reports against natively compiled code, and writes evidence/PROPERTY.json.
Exit 0: held on everything explored. 1: violated. 2: no verdict.
"""
import fcntl, hashlib, json, os, random, shutil, signal, struct, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
import cases as C

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0", HOME="/root")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
HOOK = "nanvm_verif"


class NoVerdict(Exception):
    pass


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules", "build"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def sh(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise NoVerdict("%s failed:\n%s" % (what, p.stdout[-4000:]))


def build_engine():
    h = tree_hash([os.path.join(V, "engine")])
    out = os.path.join(BUILD, "engine-" + h)
    exe = os.path.join(out, "symex")
    if not os.path.exists(exe):
        t = os.path.join(BUILD, "t-engine-" + h)
        sh(["cargo", "build", "--offline", "--release", "--target-dir", t], os.path.join(V, "engine"), ENV, "engine build")
        os.makedirs(out, exist_ok=True)
        shutil.copy(os.path.join(t, "release", "symex"), exe + ".tmp")
        os.rename(exe + ".tmp", exe)
        shutil.rmtree(t, ignore_errors=True)
    return exe


def harness_dir(out):
    """The harness crate, with its dependency on nanvm-lib pointing at REPO."""
    src = os.path.join(V, "harness")
    if REPO == "/repo":
        return src
    d = os.path.join(out, "harness")
    if not os.path.exists(d):
        shutil.copytree(src, d, ignore=shutil.ignore_patterns("target"))
        p = os.path.join(d, "Cargo.toml")
        s = open(p).read().replace("/repo/", REPO + "/")
        open(p, "w").write(s)
    return d


def build_ir(h):
    out = os.path.join(BUILD, "ir-" + h)
    ll = os.path.join(out, "harness.ll")
    if not os.path.exists(ll):
        t = os.path.join(BUILD, "t-ir-" + h)
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        env = dict(ENV, RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp --cfg symex --cfg " + HOOK)
        sh(["cargo", "rustc", "--offline", "--locked", "--release", "--lib", "--crate-type", "staticlib", "--target-dir", t,
            "--", "--emit=llvm-ir", "-C", "save-temps"], harness_dir(out), env, "IR build")
        deps = os.path.join(t, "release", "deps")
        fs = [f for f in os.listdir(deps) if f.startswith("harness-") and f.endswith(".ll") and f.count(".") == 1]
        if len(fs) != 1:
            raise NoVerdict("expected one IR module, found %s" % fs)
        shutil.copy(os.path.join(deps, fs[0]), ll + ".tmp")
        os.rename(ll + ".tmp", ll)
        shutil.rmtree(t, ignore_errors=True)
    return ll


def build_native(h):
    out = os.path.join(BUILD, "nat-" + h)
    exe = os.path.join(out, "native")
    if not os.path.exists(exe):
        t = os.path.join(BUILD, "t-nat-" + h)
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        env = dict(ENV, RUSTFLAGS="--cfg " + HOOK)
        sh(["cargo", "build", "--offline", "--locked", "--bin", "native", "--target-dir", t], harness_dir(out), env, "native build")
        shutil.copy(os.path.join(t, "debug", "native"), exe + ".tmp")
        os.rename(exe + ".tmp", exe)
        shutil.rmtree(t, ignore_errors=True)
    return exe


def build_all(which=("engine", "ir", "native")):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash([os.path.join(REPO, "nanvm-lib"), os.path.join(V, "harness")])
        # keep the products of the last few trees only
        for pre in ("ir-", "nat-"):
            ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(pre)), key=os.path.getmtime)
            for d in ds[:-6]:
                if not d.endswith(h):
                    shutil.rmtree(d, ignore_errors=True)
        res, err = {}, []

        def go(k, f):
            try:
                res[k] = f()
            except Exception as e:
                err.append(e)

        ts = [threading.Thread(target=go, args=a) for a in
              (("engine", build_engine), ("ir", lambda: build_ir(h)), ("native", lambda: build_native(h))) if a[0] in which]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if err:
            raise err[0]
        return res


class Native:
    """Runs of the native replayer."""

    def __init__(self, exe, timeout=20):
        self.exe, self.timeout = exe, timeout

    def batch(self, runs, timeout=120):
        """runs: (id, entry, params, inputs) -> {id: (kind, label, hash)}"""
        res = {}
        todo = list(runs)
        while todo:
            text = "".join("%s %s %s %s\n" % r for r in todo)
            p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            try:
                out, _ = p.communicate(text, timeout=timeout)
                died = "crash (exit %s)" % p.returncode
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
                died = "no end within %d s" % timeout
            got = 0
            for line in (out or "").splitlines():
                f = line.split("\t")
                if len(f) == 4:
                    res[f[0]] = (f[1], f[2], f[3])
                    got += 1
            if got < len(todo):
                res[todo[got][0]] = ("hang" if died.startswith("no end") else "crash", died, "")
                got += 1
            todo = todo[got:]
        return res

    def one(self, entry, params, inputs, timeout=20):
        return self.batch([("x", entry, params, inputs)], timeout)["x"]

    def valgrind(self, entry, params, inputs):
        try:
            p = subprocess.run(["valgrind", "-q", "--error-exitcode=99", "--main-stacksize=8388608", self.exe],
                               input="x %s %s %s\n" % (entry, params, inputs), text=True, timeout=240,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        except subprocess.TimeoutExpired:
            return False, "valgrind timed out"
        return p.returncode == 99, p.stderr[:3000]


def case_id(c):
    return "%s(%s)" % (c["entry"], ",".join(map(str, c["params"])))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cases = C.cases(prop, tier)
    assert cases, "no cases for " + prop
    only = os.environ.get("VERIF_ONLY")
    if only:
        cases = [c for c in cases if only in case_id(c)]
    b = build_all()
    t_build = time.time() - t0
    limit = float(os.environ.get("VERIF_LIMIT", "0")) or (600 if tier == "quick" else 840)
    deadline = t0 + limit
    cores = int(os.environ.get("VERIF_CORES", "0")) or len(os.sched_getaffinity(0))
    tmp = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        return run(prop, tier, seed, t0, t_build, cases, b, deadline, cores, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, t0, t_build, cases, b, deadline, cores, tmp):
    slots = os.path.join(tmp, "slots")
    with open(slots, "wb") as f:
        f.write(struct.pack("<i", cores) + bytes(4092))
    known_file = json.load(open(os.path.join(V, "known_findings.json")))
    known_labels = {k["label"]: k for k in known_file["findings"] if k["property"] == prop}
    nat = Native(b["native"])

    procs = []
    for i, c in enumerate(cases):
        out = os.path.join(tmp, "o%d" % i)
        c["out"], c["pos"], c["tail"] = out, 0, ""
        cmd = [b["engine"], "--ll", b["ir"], "--entry", c["entry"], "--out", out, "--slots", slots,
               "--seed", str(seed), "--deadline", str(deadline), "--max-out", "1500"]
        if c["params"]:
            cmd += ["--params", ",".join(map(str, c["params"]))]
        if c.get("hash_seed"):
            cmd += ["--hash-seed", str(c["hash_seed"])]
        if c.get("max_steps"):
            cmd += ["--max-steps", str(c["max_steps"])]
        cmd += ["--timeout-ms", str(c.get("timeout_ms", 120000))]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), start_new_session=True)
        procs.append(p)
        c["proc"] = p
        for k in ("viol", "err", "ok"):
            c[k] = []
        c["stat"], c["reach"], c["funcs"], c["end"], c["nok"] = {}, {}, set(), None, 0

    def poll(c):
        try:
            with open(c["out"]) as f:
                f.seek(c["pos"])
                data = f.read()
        except FileNotFoundError:
            return
        c["pos"] += len(data.encode())
        data = c["tail"] + data
        lines = data.split("\n")
        c["tail"] = lines.pop()
        for line in lines:
            f = line.split("\t")
            if f[0] == "PATH":
                if f[1] in ("ok", "xpanic"):
                    c["nok"] += 1
                    c["ok"].append(f)
                else:
                    c["viol"].append(f)
            elif f[0] == "ERR":
                c["err"].append(f[1])
            elif f[0] == "STAT":
                for kv in f[1:]:
                    k, v = kv.split("=")
                    if k == "max_ms":
                        c["stat"][k] = max(c["stat"].get(k, 0), int(v))
                    else:
                        c["stat"][k] = c["stat"].get(k, 0) + int(v)
            elif f[0] == "REACH":
                c["reach"][f[1]] = c["reach"].get(f[1], 0) + int(f[2])
            elif f[0] == "FUNC":
                c["funcs"].add(f[1])
            elif f[0] == "END":
                c["end"] = f

    confirmed = []   # (case, path, native outcome)
    unconfirmed = []
    known_seen = {}
    done_viol = set()

    def judge(c):
        for f in c["viol"]:
            kind, label, inputs = f[1][5:], f[2], f[3] or "-"
            params = ",".join(map(str, c["params"])) or "-"
            key = (case_id(c), kind, label)
            if key in done_viol:
                continue
            if kind == "known" and label in known_labels:
                done_viol.add(key)
                r = nat.one(c["entry"], params, inputs)
                if r[0] == "known" and r[1] == label:
                    known_seen.setdefault(label, (c, f))
                else:
                    unconfirmed.append((c, f, r))
                continue
            r = ("", "", "")
            for attempt in range(8):
                r = nat.one(c["entry"], params, inputs)
                if r[0] in ("check", "known", "panic", "crash", "hang"):
                    break
            good = r[0] in ("check", "known", "panic", "crash", "hang")
            if not good and kind == "memory":
                good, text = nat.valgrind(c["entry"], params, inputs)
                r = ("valgrind", text, "")
            if good:
                done_viol.add(key)
                confirmed.append((c, f, r))
            else:
                unconfirmed.append((c, f, r))
        c["viol"] = []

    running = True
    while running:
        running = any(c["proc"].poll() is None for c in cases)
        for c in cases:
            poll(c)
            judge(c)
        if confirmed:
            break
        if time.time() > deadline + 20:
            break
        if running:
            time.sleep(0.1)
    stopped_early = bool(confirmed)
    for p in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()

    problems, undecided = [], []
    if not confirmed:
        for c in cases:
            for e in sorted(set(c["err"]))[:5]:
                slow = e.startswith("solver gave no answer") or e.startswith("time limit")
                c["undecided"] = c.get("undecided", False) or slow
                (undecided if slow else problems).append("%s: %s" % (case_id(c), e))
            if not c["end"]:
                err = open(c["out"] + ".err").read()[-300:]
                c["undecided"] = True
                (undecided if time.time() > deadline and not err else problems).append("%s: engine did not finish (%s)" % (case_id(c), err))
        # what the solver could not settle in time is reported as undecided and
        # claimed nowhere; with every case of an entry undecided there is no verdict
        for e in {c["entry"] for c in cases}:
            n = [c.get("undecided", False) for c in cases if c["entry"] == e]
            if all(n):
                problems += ["nothing decided: " + x for x in undecided if x.startswith(e + "(")]
        # every reach label of an entry must be reached by one of its cases
        for e in {c["entry"] for c in cases}:
            for w in C.reach_labels(prop, e):
                if not any(c["reach"].get(w) for c in cases if c["entry"] == e):
                    problems.append("%s: never reached '%s' (vacuous)" % (e, w))
        for c, f, r in unconfirmed:
            problems.append("%s: engine reports %s '%s' on inputs %s, native run says %s" % (case_id(c), f[1], f[2], f[3], r))

    # replay models of completed paths natively and compare observations
    rnd = random.Random(seed)
    runs, meta = [], {}
    if not confirmed:
        per = max(30, 600 // max(1, len(cases)))
        for i, c in enumerate(cases):
            if c.get("no_replay"):
                continue
            pick = c["ok"] if len(c["ok"]) <= per else rnd.sample(c["ok"], per)
            for j, f in enumerate(pick):
                k = "%d.%d" % (i, j)
                runs.append((k, c["entry"], ",".join(map(str, c["params"])) or "-", f[3] or "-"))
                meta[k] = (c, f)
    validated = 0
    samples = []
    if runs:
        chunks = [runs[i::cores] for i in range(cores)]
        results = {}

        def one(ch):
            if ch:
                results.update(nat.batch(ch, 200))
        ts = [threading.Thread(target=one, args=(ch,)) for ch in chunks]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for k, (c, f) in meta.items():
            r = results.get(k)
            ok = r and r[0] == f[1] and r[2] == f[4]
            if ok:
                validated += 1
                if len(samples) < 12 and (len(samples) < 3 or rnd.random() < 0.02):
                    samples.append({"case": case_id(c), "path_condition_model": f[3], "outcome": f[1], "observations_hash": f[4], "native": list(r)})
            elif r and r[0] in ("check", "panic", "crash", "hang"):
                confirmed.append((c, f, r))
            else:
                problems.append("%s: model %s of a completed path: engine %s %s, native %s" % (case_id(c), f[3], f[1], f[4], r))

    tot = lambda k: sum(c["stat"].get(k, 0) for c in cases)
    funcs = sorted(set().union(*[c["funcs"] for c in cases]))
    ends = [c["end"] for c in cases if c["end"]]
    if not samples:
        samples = [{"case": case_id(c), "path_condition_model": f[3], "outcome": f[1]} for c, f, _ in confirmed[:3]] or [{"note": "no completed path was replayed"}]
    cov = {
        "states": tot("paths") + tot("killed") + tot("forks"),
        "transitions": tot("bbs"),
        "traces_validated_against_impl": validated,
        "samples": samples,
        "completed_paths": tot("paths"),
        "forks": tot("forks"),
        "basic_blocks_executed": tot("bbs"),
        "instructions_executed": tot("steps"),
        "assertions_evaluated": tot("checks"),
        "smt_queries": tot("queries"),
        "smt_unsat": tot("unsat"),
        "smt_sat": tot("sat"),
        "smt_unknown": tot("unknown"),
        "smt_cache_hits": tot("cache"),
        "multiplication_abstracted_queries": tot("abstracted"),
        "smt_time_s": round(tot("solver_ms") / 1000.0, 3),
        "smt_longest_query_ms": max([c["stat"].get("max_ms", 0) for c in cases] or [0]),
        "solver": ends[0][2] if ends else "z3",
        "functions_encoded": funcs,
        "functions_encoded_count": len(funcs),
        "cases": [{"case": case_id(c), "bounds": c.get("bounds", ""), "paths": c["stat"].get("paths", 0),
                   "queries": c["stat"].get("queries", 0), "reach": c["reach"],
                   "decided": bool(c["end"]) and not c.get("undecided", False), "seconds": float(c["end"][1]) if c["end"] else None} for c in cases],
        "build_s": round(t_build, 2),
        "known_findings_confirmed": sorted(known_seen),
        "undecided": undecided,
        "stopped_at_first_violation": stopped_early,
        "outside_the_bounds": C.outside(prop),
    }
    rc = 0
    if confirmed:
        rc = 1
    elif problems:
        rc = 2
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": C.assumptions(prop), "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    p = os.path.join(V, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)
    for l in sorted(known_seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, known_labels[l]["what"]))
    if confirmed:
        rd = os.path.join(V, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for n, (c, f, r) in enumerate(confirmed[:5]):
            rp = os.path.join(rd, "%s-%d.json" % (prop, n))
            json.dump({"property": prop, "harness": c["entry"], "params": c["params"], "inputs_hex": f[3],
                       "engine": f[1], "label": f[2], "native_outcome": list(r),
                       "replay": "python3 /verif/replay.py %s" % rp}, open(rp, "w"), indent=1)
            print("  %s %s: '%s' inputs=[%s]; the native run: %s %s" % (case_id(c), f[1], f[2], f[3], r[0], r[1][:300]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
    for x in undecided[:20]:
        print("UNDECIDED: " + x)
    for x in problems[:20]:
        print("NO-VERDICT: " + x)
    print("%s %s: %s  paths=%d queries=%d solver=%.1fs wall=%.1fs validated=%d" %
          (prop, tier, {0: "held", 1: "VIOLATED", 2: "no verdict"}[rc], tot("paths"), tot("queries"), tot("solver_ms") / 1000.0, time.time() - t0, validated))
    return rc


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--build":
            build_all()
            sys.exit(0)
        sys.exit(main())
    except NoVerdict as e:
        print("NO-VERDICT: %s" % e)
        sys.exit(2)
