"""Check framework: build the MIR driver, dump the MIR of /repo's current tree, run one property's
analysis, write its evidence and report violations / known findings."""
import hashlib, json, os, subprocess, sys, time, shutil, glob, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class BuildFail(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash():
    h = hashlib.sha256()
    for base in ("driver/src", "driver/Cargo.toml", "driver/Cargo.lock"):
        p = os.path.join(VERIF, base)
        for f in sorted(glob.glob(p + "/*")) if os.path.isdir(p) else [p]:
            h.update(open(f, "rb").read())
    files = []
    for root, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        files += [os.path.join(root, f) for f in sorted(fs)]
    files += [os.path.join(REPO, x) for x in ("Cargo.toml", "Cargo.lock")]
    for f in files:
        h.update(f.encode() + b"\0")
        if os.path.exists(f):
            h.update(open(f, "rb").read())
    return h.hexdigest()


def dump():
    """path of the MIR dump of the current tree (driver built on demand)"""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "mir.json")
    stamp = os.path.join(BUILD, "mir.stamp")
    th = tree_hash()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == th:
        return out
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    env["CARGO_NET_OFFLINE"] = "true"
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip()
    denv = dict(env, CARGO_TARGET_DIR=os.path.join(BUILD, "driver"))
    r = sh(["cargo", "+nightly", "build", "--offline"], cwd=os.path.join(VERIF, "driver"), env=denv)
    if r.returncode:
        raise BuildFail("driver build failed\n" + r.stdout[-4000:])
    target = os.path.join(BUILD, "target")
    for d in glob.glob(os.path.join(target, "debug/.fingerprint/symb_anafis-*")):
        shutil.rmtree(d)
    if os.path.exists(out):
        os.remove(out)
    env.update(MIRDUMP_OUT=out, LD_LIBRARY_PATH=sysroot + "/lib", CARGO_TARGET_DIR=target,
               RUSTC_WORKSPACE_WRAPPER=os.path.join(BUILD, "driver/debug/mirdump"))
    lock = os.path.join(REPO, "Cargo.lock")
    before = open(lock, "rb").read() if os.path.exists(lock) else None
    r = sh(["cargo", "+nightly", "check", "--lib", "--offline", "--features", "python,parallel"], cwd=REPO, env=env)
    after = open(lock, "rb").read() if os.path.exists(lock) else None
    if after != before:
        if before is None:
            os.remove(lock)
        else:
            open(lock, "wb").write(before)
    if r.returncode or not os.path.exists(out):
        raise BuildFail("cargo check of /repo failed\n" + r.stdout[-4000:])
    open(stamp, "w").write(th)
    return out


def known_for(pid):
    """{key: text} of the recorded (unrepaired) findings of a property"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known:"):
                # known: property=<id> key=<key> :: <what fails>
                head, _, text = l.partition(" :: ")
                parts = dict(x.split("=", 1) for x in head[len("known:"):].split(" ", 2)[1:] if "=" in x) \
                    if False else {}
                p = head.split("property=", 1)[1].split(" ", 1)[0]
                k = head.split(" key=", 1)[1].strip()
                if p == pid:
                    r[k] = text
    return r


class Report:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.violations = []  # (key, where, text)
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.samples = []
        self.notes = {}
        self.functions = set()

    def ok(self, sample=None):
        self.obligations += 1
        self.discharged += 1
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def violate(self, key, where, text):
        self.obligations += 1
        self.violations.append((key, where, text))

    def undec(self, what, why):
        self.obligations += 1
        t = f"{what}: {why}"
        self.undecided.append(t if len(t) < 400 else t[:397] + "...")

    def check(self, cond, key, where, text, sample=None):
        if cond:
            self.ok(sample)
        else:
            self.violate(key, where, text)
        return cond

    def floor(self, what, n, least):
        """report (never silently) that fewer instances than confirmed by hand were found"""
        self.notes.setdefault("instances", {})[what] = n
        if n < least:
            self.undec(f"floor:{what}", f"only {n} instances of {what} were found (at least {least} expected): the rule has nothing to "
                                        f"apply to; the construct disappeared or changed shape")
            print(f"UNDECIDED: {self.pid} found {n} {what} (at least {least} expected)")


def parallel(rep, jobs, workers=8, limit=700):
    """run the jobs (functions of a Report) in forked processes; their results are merged in the order of the jobs.
    A job returns a picklable value, or None."""
    import gc, pickle, select, signal
    gc.collect()
    gc.freeze()
    sys.stdout.flush()
    end = time.time() + limit
    out = [None] * len(jobs)
    todo = list(range(len(jobs)))
    live = {}
    while todo or live:
        while todo and len(live) < workers:
            i = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                sub = Report(rep.pid, rep.rule)
                try:
                    v = jobs[i](sub)
                except Exception:
                    v = None
                    sub.undec(f"job {i}", "the analysis could not follow the code it has to judge: " + traceback.format_exc()[-700:])
                with os.fdopen(w, "wb") as f:
                    pickle.dump((sub.__dict__, v), f)
                os._exit(0)
            os.close(w)
            live[r] = (i, pid, [])
        ready, _, _ = select.select(list(live), [], [], max(0.0, min(5.0, end - time.time())))
        for r in ready:
            b = os.read(r, 1 << 20)
            i, pid, buf = live[r]
            if b:
                buf.append(b)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                out[i] = pickle.loads(b"".join(buf))
            except Exception:
                out[i] = None
        if time.time() >= end and (todo or live):
            for r, (i, pid, _) in live.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
            break
    vals = []
    for i, x in enumerate(out):
        if x is None:
            rep.undec(f"job {i}", "no result within the time limit")
            vals.append(None)
            continue
        d, v = x
        vals.append(v)
        rep.violations += d["violations"]
        rep.obligations += d["obligations"]
        rep.discharged += d["discharged"]
        rep.undecided += [t[:400] for t in d["undecided"]]
        rep.samples += d["samples"][:max(0, 40 - len(rep.samples))]
        rep.functions |= d["functions"]
        for k, n in d["notes"].items():
            if isinstance(n, dict):
                rep.notes.setdefault(k, {}).update(n)
            elif isinstance(n, list):
                rep.notes.setdefault(k, []).extend(n)
            else:
                rep.notes[k] = n
    return vals


def finish(rep, t0, level="other"):
    known = known_for(rep.pid)
    new, old = [], []
    seen = set()
    for key, where, text in rep.violations:
        if key in seen:
            continue
        seen.add(key)
        (old if key in known else new).append((key, where, text))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": rep.pid, "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": {
            "explanation": rep.rule, "obligations": rep.obligations, "discharged": rep.discharged,
            "undecided": rep.undecided, "functions_analysed": len(rep.functions),
            "functions": sorted(rep.functions)[:200], "samples": rep.samples, **rep.notes,
            "violations_reported": [f"{k} @ {w}: {t}" for k, w, t in new],
            "known_findings": [k for k, w, t in old],
        },
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    path = os.path.join(VERIF, "evidence", rep.pid + ".json")
    json.dump(ev, open(path, "w"), indent=1)
    for key, where, text in old:
        print(f"KNOWN-FINDING: property={rep.pid} {key} :: {known[key]}")
    print(f"{rep.pid}: {rep.obligations} obligations, {rep.discharged} discharged, {len(rep.undecided)} undecided, "
          f"{len(rep.functions)} functions analysed, {ev['wall_s']} s")
    if new:
        rp = os.path.join(VERIF, "evidence", rep.pid + ".violation.txt")
        with open(rp, "w") as f:
            f.write(f"property {rep.pid}\nrule: {rep.rule}\n\n")
            for key, where, text in new:
                f.write(f"[{key}]\n  at {where}\n  {text}\n\n")
        for key, where, text in new[:40]:
            print(f"  [{key}] {where}\n      {text[:1500]}")
        print(f"VIOLATION property={rep.pid} replay={rp}")
        return 1
    return 0
