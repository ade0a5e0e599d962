"""Checks that are not rules over values: effects (C31), the no-std configuration (C32), types (C34)."""
import difflib, glob, json, os, re, subprocess

REPO = "/repo"
ROOT = os.path.dirname(os.path.abspath(__file__))


def _env(run, tag, rustflags):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env.update(CARGO_TARGET_DIR=os.path.join(run.dir, tag), RUSTFLAGS=rustflags, CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    return env


def _sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def _library_compiles(run):
    r = _sh(["cargo", "+nightly", "check", "--lib", "--offline"], cwd=REPO, env=_env(run, "plain", "-Awarnings"))
    if r.returncode:
        print(r.stdout[-3000:])
        print("check.py: /repo does not compile")
        raise SystemExit(2)


def effects(run, tag, cwd, wrapper, extra=(), width=64):
    """run the effect analysis on static_math as built from cwd"""
    sm = os.path.join(ROOT, "build/smcheck/release/smcheck")
    out = os.path.join(run.dir, f"{tag}.json")
    env = _env(run, tag, "-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings")
    lib = _sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip() + "/lib"
    env.update(LD_LIBRARY_PATH=lib, RUST_MIN_STACK="1000000000", SM_OUT=out, SM_MODE="effects", SM_CRATE="static_math", SM_REPO=REPO + "/src", SM_WIDTH=str(width))
    env[wrapper] = sm
    r = _sh(["cargo", "+nightly", "check", "--lib", "--offline", *extra], cwd=cwd, env=env)
    if not os.path.exists(out):
        print(r.stdout[-3000:])
        print("check.py: the effect analysis did not finish")
        raise SystemExit(3)
    return json.load(open(out))


def _unsafe_sites(run):
    """the compiler's own lint, which no attribute inside the crate can lower"""
    r = subprocess.run(["cargo", "+nightly", "check", "--lib", "--offline", "--message-format=json"], cwd=REPO, env=_env(run, "unsafe", "-Awarnings -Funsafe_code"),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    sites, other = [], []
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        code = (m["message"].get("code") or {}).get("code")
        if code in ("unsafe_code", "E0453"):
            sites.append(m["message"]["rendered"])
        elif m["message"].get("spans"):
            other.append(m["message"]["rendered"])
    if r.returncode and not sites:
        print("\n".join(other)[-3000:] or r.stderr[-2000:])
        print("check.py: /repo does not compile")
        raise SystemExit(2)
    return sites


def c31(run):
    _library_compiles(run)
    sites = _unsafe_sites(run)
    run.obs.append(("c31::unsafe_code", not sites, "lint unsafe_code forbidden for the whole crate"))
    if sites:
        run.viol.append(("c31::unsafe_code", "unsafe code in the crate:\n" + "\n".join(sites)))
    d = effects(run, "eff", REPO, "RUSTC_WORKSPACE_WRAPPER")
    _effect_obs(run, d, "c31")
    e = effects(run, "eff32", REPO, "RUSTC_WORKSPACE_WRAPPER", width=32)
    _effect_obs(run, e, "c31", "f32:")
    d.update({k: d[k] + e[k] for k in ("instances", "bodies", "call_sites")})
    if len(d["fns"]) < 300:
        run.viol.append(("c31::floor", f"only {len(d['fns'])} functions of the crate were found"))
    run.extra.update(crate_functions=len(d["fns"]), instances=d["instances"], bodies_analysed=d["bodies"], call_sites=d["call_sites"])


def _effect_obs(run, d, pid, mark=""):
    for o in d["obs"]:
        key = f"{mark}{pid}::{o['key']}"
        run.obs.append((key, o["ok"], "effect-closure"))
        if not o["key"].startswith(("static:", "type:")):
            run.functions[o["key"]] = o["at"]
        if not o["ok"]:
            run.viol.append((key, f"{o['key']} ({o['at']}): {o['detail']}"))
    run.samples.extend(dict(obligation=f"{pid}::{o['key']}", at=o["at"], rule="no effect construct is reachable from this function") for o in d["obs"][:5])


def c32(run):
    _library_compiles(run)
    cl = os.path.join(run.dir, "client")
    os.makedirs(cl + "/src", exist_ok=True)
    for f in ("Cargo.toml", "Cargo.lock", "src/lib.rs"):
        open(f"{cl}/{f}", "w").write(open(f"{ROOT}/nostd/{f}").read())
    env = _env(run, "nostd", "-Awarnings")
    r = _sh(["cargo", "+nightly", "check", "--lib", "--offline", "--locked"], cwd=cl, env=env)
    run.obs.append(("c32::type-checks", r.returncode == 0, "type check of the no-std configuration through a no_std client"))
    if r.returncode:
        errs = r.stdout[r.stdout.find("error"):][:3000]
        run.viol.append(("c32::type-checks", "the library or its no_std client does not compile with default features off and `no-std` on:\n" + errs))
        return
    d = effects(run, "nostd_eff", cl, "RUSTC_WRAPPER", ("--locked",))
    linked = "std" in d["crates"]
    run.obs.append(("c32::crate-graph", not linked, "crates loaded by the no-std configuration"))
    if linked:
        run.viol.append(("c32::crate-graph", f"the no-std configuration links the standard library (crates: {', '.join(d['crates'])})"))
    e = effects(run, "std_eff", REPO, "RUSTC_WORKSPACE_WRAPPER")
    norm = lambda n: re.sub(r"\b(std|alloc)::", "core::", n)
    here = {norm(n) for n in d["fns"]}
    for n in map(norm, e["fns"]):
        ok = n in here
        run.obs.append((f"c32::same::{n}", ok, "same operations in both configurations"))
        if not ok:
            run.viol.append((f"c32::same::{n}", f"{n} exists in the default configuration only"))
    def code(d):
        out = {}
        for n, t in d["mir"]:
            out.setdefault(norm(n), []).append(re.sub(r"alloc\d+|(?<=closure@)[^ }]*", "_", norm(t)))
        return out
    def bag(ts):
        # panic! expands differently in the two configurations: compare the other statements
        t = "\n".join(ts)
        if "panic" not in t:
            return None
        ls = (re.sub(r"\b_\d+", "_", re.sub(r"\bbb\d+", "bb", l.strip())) for l in t.split("\n"))
        return sorted(l for l in ls if not re.search(r"panic|Arguments|^let |^debug|^scope|unwind|^bb|^}|^goto|^Storage", l) and l)
    there, code_here = code(e), code(d)
    for n in sorted(there):
        ok = n not in code_here or sorted(code_here[n]) == sorted(there[n]) or bag(code_here[n]) == bag(there[n]) != None
        run.obs.append((f"c32::body::{n}", ok, "same generic MIR in both configurations"))
        if not ok:
            diff = list(difflib.unified_diff("\n".join(there[n]).split("\n"), "\n".join(code_here[n]).split("\n"), "default", "no-std", lineterm="", n=1))
            run.viol.append((f"c32::body::{n}", f"{n} has another body in the no-std configuration\n" + "\n".join(diff[:12])))
    for o in d["obs"]:
        run.functions.setdefault(o["key"], o["at"])
        bad = not o["ok"] and "of the standard library" in o["detail"]
        run.obs.append((f"c32::no-std-call::{o['key']}", not bad, "no reachable function of the standard library"))
        if bad:
            run.viol.append((f"c32::no-std-call::{o['key']}", f"{o['key']} ({o['at']}): {o['detail']}"))
    run.samples.append(dict(obligation="c32::crate-graph", crates=d["crates"]))
    run.extra.update(crates=d["crates"], crate_functions=len(d["fns"]), instances=d["instances"], call_sites=d["call_sites"])


# ---------------------------------------------------------------------------------------- C34
VEC = ["V2", "V3", "V4", "V5", "V6"]
MAT = ["M22", "M33", "M44", "M55", "M66"]
PRE = "#![allow(unused, dead_code)]\nuse static_math::*;\n"


def _accept():
    out = []
    types = [(v, n) for v, n in zip(VEC, range(2, 7))] + [(m, n * n) for m, n in zip(MAT, range(2, 7))]
    for t in VEC + MAT + ["Quaternion", "DualQuaternion"]:
        for s in ("f32", "f64"):
            out.append((f"value-type {t}<{s}>", f"fn need<T: Copy + Clone + Send + Sync + PartialEq + core::fmt::Debug + Unpin + 'static>() {{}}\npub fn f() {{ need::<{t}<{s}>>() }}\nconst _: () = assert!(!core::mem::needs_drop::<{t}<{s}>>());"))
            out.append((f"shared across threads {t}<{s}>", f"fn need<T: core::panic::RefUnwindSafe + core::panic::UnwindSafe + Sync>() {{}}\npub fn f() {{ need::<{t}<{s}>>() }}"))
    for t, n in types:
        for s, b in (("f32", 4), ("f64", 8), ("u8", 1), ("i32", 4)):
            out.append((f"size {t}<{s}>", f"const _: () = assert!(core::mem::size_of::<{t}<{s}>>() == {n * b} && core::mem::align_of::<{t}<{s}>>() == {b});"))
    for s, b in (("f32", 4), ("f64", 8)):
        out.append((f"size Quaternion<{s}>", f"const N: usize = core::mem::size_of::<Quaternion<{s}>>();\nconst _: () = assert!(N >= {4 * b} && N <= {5 * b});"))
        out.append((f"size DualQuaternion<{s}>", f"const N: usize = core::mem::size_of::<DualQuaternion<{s}>>();\nconst _: () = assert!(N >= {8 * b} && N <= {11 * b});"))
    for v, n in zip(VEC, range(2, 7)):
        out.append((f"array view {v}", f"pub fn f(x: &{v}<f64>) -> &[f64; {n}] {{ &**x }}\npub fn g(x: &mut {v}<f64>) -> &mut [f64; {n}] {{ &mut **x }}\npub fn h(x: [f64; {n}]) -> {v}<f64> {{ {v}::from(x) }}\npub fn i(x: &{v}<f64>) -> &[f64] {{ &x[..] }}"))
        out.append((f"constant {v}", f"pub const C: {v}<f64> = {v}::new([1.0; {n}]);\npub static S: {v}<f64> = C;"))
    for m, n in zip(MAT, range(2, 7)):
        out.append((f"array view {m}", f"pub fn f(x: &{m}<f64>) -> &[[f64; {n}]; {n}] {{ &**x }}\npub fn g(x: &mut {m}<f64>) -> &mut [[f64; {n}]; {n}] {{ &mut **x }}\npub fn h(x: [[f64; {n}]; {n}]) -> {m}<f64> {{ {m}::from(x) }}"))
        if n < 5:
            out.append((f"constant {m}", f"pub const C: {m}<f64> = {m}::new([[1.0; {n}]; {n}]);"))
    out.append(("constant Quaternion", "pub const Q: Quaternion<f64> = Quaternion::new_from(1.0, 0.0, 0.0, 0.0);\npub const D: DualQuaternion<f64> = DualQuaternion::new(Q, Q);"))
    return out


def _reject():
    """(name, program that must be refused, twin that must be accepted)"""
    out = []
    q = "q: &mut Quaternion<f64>, v: V3<f64>"
    for f, w in (("q0", "1.0"), ("q", "v"), ("normalized", "true")):
        out.append((f"write Quaternion.{f}", f"pub fn f({q}) {{ q.{f} = {w}; }}", f"pub fn f({q}) {{ *q = Quaternion::new(1.0, v); }}"))
        out.append((f"borrow Quaternion.{f}", f"pub fn f({q}) {{ let _r = &mut q.{f}; }}", f"pub fn f({q}) {{ let _r = &mut *q; }}"))
    out.append(("literal Quaternion", f"pub fn f({q}) -> Quaternion<f64> {{ Quaternion {{ q0: 2.0, q: v, normalized: true }} }}", f"pub fn f({q}) -> Quaternion<f64> {{ Quaternion::new(2.0, v) }}"))
    out.append(("update Quaternion", f"pub fn f({q}) -> Quaternion<f64> {{ Quaternion {{ q0: 2.0, ..*q }} }}", f"pub fn f({q}) -> Quaternion<f64> {{ Quaternion::new(2.0, q.imag()) }}"))
    out.append(("index Quaternion", f"pub fn f({q}) {{ q[0] = 2.0; }}", f"pub fn f({q}) {{ let _ = q.imag()[0]; }}"))
    out.append(("view Quaternion", f"pub fn f({q}) {{ let _a: &mut [f64] = &mut **q; }}", "pub fn f(v: &mut V3<f64>) { let _a: &mut [f64] = &mut **v; }"))
    d = "d: &mut DualQuaternion<f64>, q: Quaternion<f64>"
    for f, w in (("q_real", "q"), ("q_dual", "q"), ("normalized", "true")):
        out.append((f"write DualQuaternion.{f}", f"pub fn f({d}) {{ d.{f} = {w}; }}", f"pub fn f({d}) {{ *d = DualQuaternion::new(q, q); }}"))
        out.append((f"borrow DualQuaternion.{f}", f"pub fn f({d}) {{ let _r = &mut d.{f}; }}", f"pub fn f({d}) {{ let _r = &mut *d; }}"))
    out.append(("literal DualQuaternion", f"pub fn f({d}) -> DualQuaternion<f64> {{ DualQuaternion {{ q_real: q, q_dual: q, normalized: true }} }}", f"pub fn f({d}) -> DualQuaternion<f64> {{ DualQuaternion::new(q, q) }}"))
    out.append(("update DualQuaternion", f"pub fn f({d}) -> DualQuaternion<f64> {{ DualQuaternion {{ q_real: q, ..*d }} }}", f"pub fn f({d}) -> DualQuaternion<f64> {{ DualQuaternion::new(q, d.dual()) }}"))
    def mix(op, a, b, c):
        # a op b is refused, a op c is accepted
        out.append((f"{a} {op} {b}", f"pub fn f(x: {a}<f64>, y: {b}<f64>) {{ let _ = x {op} y; }}", f"pub fn f(x: {a}<f64>, y: {c}<f64>) {{ let _ = x {op} y; }}"))
    for fam in (VEC, MAT):
        for i, a in enumerate(fam):
            for j, b in enumerate(fam):
                if i != j:
                    for op in ("+", "-", "*", "=="):
                        mix(op, a, b, a)
    for i, m in enumerate(MAT):
        for j, v in enumerate(VEC):
            if i != j:
                mix("*", m, v, VEC[i])
                mix("*", v, m, MAT[j])
    for i, a in enumerate(VEC):
        b = VEC[(i + 1) % 5]
        for op in ("+=", "-="):
            out.append((f"{a} {op} {b}", f"pub fn f(mut x: {a}<f64>, y: {b}<f64>) {{ x {op} y; }}", f"pub fn f(mut x: {a}<f64>, y: {a}<f64>) {{ x {op} y; }}"))
    for i, a in enumerate(MAT):
        b = MAT[(i + 1) % 5]
        for op in ("+=", "-="):
            out.append((f"{a} {op} {b}", f"pub fn f(mut x: {a}<f64>, y: {b}<f64>) {{ x {op} y; }}", f"pub fn f(mut x: {a}<f64>, y: {a}<f64>) {{ x {op} y; }}"))
    for v in ("V2", "V4", "V5", "V6"):
        mix("*", "Quaternion", v, "V3")
    for op in ("+", "-", "*"):
        mix(op, "Quaternion", "DualQuaternion", "Quaternion")
        mix(op, "DualQuaternion", "Quaternion", "DualQuaternion")
    out.append(("array of another size", "pub fn f(a: [f64; 4]) -> V3<f64> { V3::new(a) }", "pub fn f(a: [f64; 3]) -> V3<f64> { V3::new(a) }"))
    out.append(("array of another shape", "pub fn f(a: [[f64; 3]; 2]) -> M33<f64> { M33::new(a) }", "pub fn f(a: [[f64; 3]; 3]) -> M33<f64> { M33::new(a) }"))
    return out


def c34(run):
    from concurrent.futures import ThreadPoolExecutor
    _library_compiles(run)
    d = effects(run, "eff", REPO, "RUSTC_WORKSPACE_WRAPPER")
    for name, of, mut, at in d["views"]:
        if of in ("Quaternion", "DualQuaternion"):
            run.obs.append((f"c34::view::{name}", not mut, "no function hands out a mutable view of a quaternion's inside"))
            if mut:
                run.viol.append((f"c34::view::{name}", f"{name} ({at}) hands out a mutable reference into a {of}, behind its normalised flag"))
    for o in d["obs"]:
        if o["key"].startswith("type:"):
            run.obs.append((f"c34::{o['key']}", o["ok"], "no interior mutability in the type"))
            if not o["ok"]:
                run.viol.append((f"c34::{o['key']}", o["detail"]))
    deps = glob.glob(os.path.join(run.dir, "plain/debug/**/libstatic_math-*.rmeta"), recursive=True)
    if not deps:
        print("check.py: no metadata of /repo")
        raise SystemExit(3)
    dirs = sorted({os.path.dirname(p) for p in glob.glob(os.path.join(run.dir, "plain/debug/**/*.rmeta"), recursive=True)})
    wd = os.path.join(run.dir, "wit")
    os.makedirs(wd, exist_ok=True)

    def compile(i, text):
        src = os.path.join(wd, f"w{i}.rs")
        open(src, "w").write(PRE + text + "\n")
        cmd = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "-o", os.path.join(wd, f"w{i}.rmeta"), "--extern", f"static_math={deps[0]}", src]
        for x in dirs:
            cmd += ["-L", f"dependency={x}"]
        r = _sh(cmd, env=_env(run, "wit", ""))
        return r.returncode, r.stdout

    acc, rej = _accept(), _reject()
    twins = sorted({t for _, _, t in rej})
    jobs = [t for _, t in acc] + twins + [b for _, b, _ in rej]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda x: compile(*x), enumerate(jobs)))
    na, nt = len(acc), len(twins)
    twin_ok = {t: res[na + i] for i, t in enumerate(twins)}
    for i, (name, text) in enumerate(acc):
        ok = res[i][0] == 0
        key = f"c34::accept::{name}"
        run.obs.append((key, ok, "witness program accepted by the type checker"))
        if not ok:
            run.viol.append((key, f"the compiler refuses the client program\n{text}\n{res[i][1][:900]}"))
    for i, (name, bad, twin) in enumerate(rej):
        rc, out = res[na + nt + i]
        key = f"c34::reject::{name}"
        trc, tout = twin_ok[twin]
        if trc:
            run.obs.append((key, False, "twin"))
            run.viol.append((key, f"the compiler refuses the client program\n{twin}\n{tout[:900]}"))
            continue
        ok = rc != 0 and "error" in out and "internal compiler error" not in out
        run.obs.append((key, ok, "witness program refused by the type checker, its twin accepted"))
        if not ok:
            run.viol.append((key, f"the compiler accepts the client program\n{bad}"))
    run.extra.update(programs_accepted=len(acc), programs_refused=len(rej), twins_accepted=len(twins))
    run.samples.extend(dict(obligation=f"c34::reject::{n}", program=b, twin=t) for n, b, t in rej[:4])
    run.samples.extend(dict(obligation=f"c34::accept::{n}", program=t) for n, t in acc[:4])
