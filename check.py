#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo by static analysis of its current source.

Exit 0: every obligation of the property's rules is discharged (listed findings are printed as
KNOWN-FINDING).  Exit 1 with a VIOLATION line: some obligation is not.  Nothing of /repo is executed:
the type-checked program (MIR) is abstractly interpreted by /verif/smcheck inside the compiler.
"""
import json, os, re, shutil, subprocess, sys, threading, time, hashlib, fcntl

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
SM = os.path.join(BUILD, "smcheck/release/smcheck")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()


def src_hash():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(ROOT, "smcheck"))):
        if "/target" in d:
            continue
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def setup():
    """build the analyser (idempotent, safe under concurrency)"""
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "smcheck.stamp")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hh = src_hash()
        if os.path.exists(SM) and os.path.exists(stamp) and open(stamp).read() == hh:
            return
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "smcheck"))
        for k in ("RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "RUSTC_WRAPPER"):
            env.pop(k, None)
        r = sh(["cargo", "+nightly", "build", "--release", "--offline", "--locked"], cwd=os.path.join(ROOT, "smcheck"), env=env)
        if r.returncode:
            print(r.stdout[-4000:])
            print("check.py: the analyser does not build")
            sys.exit(3)
        open(stamp, "w").write(hh)


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.mod = pid.lower()
        self.dir = os.path.join(BUILD, f"run.{self.mod}.{os.getpid()}")
        self.viol = []      # (key, text)
        self.obs = []       # (key, ok, method)
        self.extra = {}
        self.functions = {}
        self.samples = []
        self.notes = []

    # -- the abstract interpretation of the anchored rules
    def cargo_check(self, manifest_dir, env_extra, rustflags, tag, features=(), toolchain="+nightly", more=()):
        env = dict(os.environ)
        for k in ("RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(k, None)
        env.update(CARGO_TARGET_DIR=os.path.join(self.dir, tag), RUSTFLAGS=rustflags, CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
        env.update(env_extra)
        return sh(["cargo", toolchain, "check", "--offline", *more], cwd=manifest_dir, env=env)

    def analyse(self, width, secs):
        """analyse this property's rules at the element type of the given width: the result, or the text of a failed build"""
        src = os.path.join(ROOT, "anchors")
        if width == 32:
            # the same rules with every f64 replaced by f32
            dst = os.path.join(self.dir, "anchors32")
            os.makedirs(os.path.join(dst, "src"))
            for f in ("Cargo.toml", "Cargo.lock"):
                shutil.copy(os.path.join(src, f), dst)
            for f in os.listdir(os.path.join(src, "src")):
                text = open(os.path.join(src, "src", f)).read()
                open(os.path.join(dst, "src", f), "w").write(re.sub(r"\bf64\b", "f32", text))
            src = dst
        out = os.path.join(self.dir, f"rules{width}.json")
        env = dict(LD_LIBRARY_PATH=sysroot() + "/lib", RUST_MIN_STACK="4000000000", SM_OUT=out, SM_PROP=self.mod, SM_REPO=REPO + "/src",
                   SM_SECS=str(secs), SM_JOBS="8", SM_WIDTH=str(width), RUSTC_WORKSPACE_WRAPPER=SM, SM_MODE="")
        r = self.cargo_check(src, env, f"-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings --cfg {self.mod} --check-cfg=cfg({self.mod})", f"t{width}", more=("--locked",))
        if r.returncode or not os.path.exists(out):
            return r.stdout[-3000:]
        return json.load(open(out))

    def rules(self, floors):
        secs = 250 if self.tier == "quick" else 2000
        res = {}
        ts = [threading.Thread(target=lambda w=w: res.__setitem__(w, self.analyse(w, secs))) for w in (64, 32)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        tot = dict(steps=0, joins=0, exact=0, hash=0, calls=0)
        nrules = 0
        for w, tag in ((64, ""), (32, "f32:")):
            d = res.get(w)
            if not isinstance(d, dict):
                # does the library itself type-check?
                lib = sh(["cargo", "+nightly", "check", "--offline"], cwd=REPO, env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(self.dir, "lib")))
                if lib.returncode:
                    print(d)
                    print("check.py: /repo does not compile")
                    sys.exit(2)
                self.viol.append((f"{tag}{self.mod}!build", f"the rules of this property no longer type-check against the library's public interface:\n{d}"))
                continue
            nrules += self.collect(d, tag, floors, tot)
        self.extra.update(rules=nrules, element_types=["f64", "f32"], abstract_steps=tot["steps"], joins=tot["joins"], calls_analysed=tot["calls"],
                          equalities_confirmed_exactly=tot["exact"], equalities_by_fingerprint=tot["hash"])

    def collect(self, d, tag, floors, tot):
        seen = {}
        for r in d["results"]:
            seen[r["rule"]] = r
            for k in tot:
                tot[k] += r[k]
            for n, loc in r["functions"]:
                self.functions[n] = loc
            if r["error"]:
                self.viol.append((f"{tag}{r['rule']}!undecided", f"rule {tag}{r['rule']}: the analysis cannot establish the rule: {r['error']}"))
            for o in r["obs"]:
                self.obs.append((tag + o["key"], o["ok"], o["method"]))
                if not o["ok"]:
                    self.viol.append((tag + o["key"], f"rule {tag}{r['rule']}, obligation {o['key']}: {o['detail']}"))
        for n in d["rules"]:
            if n not in seen:
                self.viol.append((f"{tag}{n}!undecided", f"rule {tag}{n}: the analysis did not finish"))
        for n, c in floors.items():
            if n not in seen:
                self.viol.append((f"{tag}{n}!missing", f"rule {tag}{n} was not analysed"))
            elif len(seen[n]["obs"]) < c and not seen[n]["error"]:
                self.viol.append((f"{tag}{n}!floor", f"rule {tag}{n}: only {len(seen[n]['obs'])} obligations, {c} expected"))
        for r in d["results"][:400:max(1, len(d["results"]) // 6)]:
            if r["obs"]:
                self.samples.append(dict(rule=tag + r["rule"], obligation=r["obs"][0]["key"], method=r["obs"][0]["method"], functions=[n for n, _ in r["functions"]][:6]))
        return len(seen)


def main():
    pid = sys.argv[1]
    if pid == "setup":
        setup()
        return 0
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    setup()
    run = Run(pid, tier)
    os.makedirs(run.dir, exist_ok=True)
    try:
        sys.path.insert(0, ROOT)
        import props
        spec = props.PROPS[pid]
        floors = json.load(open(os.path.join(ROOT, "floors.json"))).get(run.mod, {})
        if not floors and spec.get("rules", True):
            run.viol.append((f"{run.mod}!floors", "no rule instances are registered for this property"))
        if spec.get("rules", True):
            run.rules(floors)
        for f in spec.get("steps", []):
            f(run)
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)
    known = {}
    kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
    for e in kf["findings"]:
        if e["property"] == pid:
            for k in e["keys"]:
                known[k] = e
    fresh = [(k, t) for k, t in run.viol if k not in known]
    hit = []
    for k, t in run.viol:
        if k in known and known[k] not in hit:
            hit.append(known[k])
    obligations = len(run.obs)
    discharged = sum(1 for o in run.obs if o[1])
    methods = {}
    for o in run.obs:
        methods[o[2]] = methods.get(o[2], 0) + 1
    cov = dict(obligations=obligations, discharged=discharged, methods=methods, library_functions_analysed=len(run.functions),
               functions=sorted(f"{n} ({l})" for n, l in run.functions.items()), samples=run.samples or [dict(obligation=o[0], method=o[2]) for o in run.obs[:5]],
               explanation=spec["explanation"], known_findings=[e["what"] for e in hit])
    cov.update(run.extra)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov, assumptions=spec.get("assumptions", props.ASSUME), wall_s=round(time.time() - t0, 2), violations=len(fresh))
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for e in hit:
        print(f"KNOWN-FINDING: property={pid} {e['what']}")
    if fresh:
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        rp = os.path.join(BUILD, "replay", f"{pid}.txt")
        with open(rp, "w") as f:
            f.write(f"property {pid}: {len(fresh)} violated obligation(s)\nre-run: python3 /verif/check.py {pid}\n\n")
            for k, t in fresh:
                f.write(f"[{k}]\n{t}\n\n")
        for k, t in fresh[:8]:
            print(t[:1500])
        if len(fresh) > 8:
            print(f"... and {len(fresh) - 8} more (see {rp})")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"{pid}: {discharged}/{obligations} obligations discharged over {len(run.functions)} library functions in {time.time() - t0:.1f}s")
    return 0


sys.exit(main())
