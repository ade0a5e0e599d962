//! Compiler driver: runs the analyses on the type-checked program (MIR of every crate involved).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

mod alg;
mod dd;
mod effects;
mod fl;
mod round;
mod hook;
mod interp;
mod lin;
mod sub;

use interp::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::VarDebugInfoContents;
use rustc_public::CrateDef;
use std::io::Write;
use std::ops::ControlFlow;

extern "C" {
    fn fork() -> i32;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn env(k: &str) -> Option<String> { std::env::var(k).ok().filter(|s| !s.is_empty()) }

struct Rule { name: String, inst: Instance }

fn run_rule(it: &mut Interp, r: &Rule, secs: u64) -> String {
    let t0 = std::time::Instant::now();
    let mut tries = 0;
    let mut best: Option<(usize, Vec<Ob>, Option<String>, u64, u64)> = None;
    let mut stats = (0u64, 0u64, 0usize, 0usize);
    let an0 = it.analysed.clone();
    let calls0 = it.call_sites;
    for seed in [11u64, 23, 37, 51] {
        tries += 1;
        it.reset(seed);
        it.deadline = t0 + std::time::Duration::from_secs(secs);
        it.rule_name = r.name.clone();
        it.trace = env("SM_TRACE").is_some();
        let mut st = State { mem: Default::default(), pc: dd::TRUE };
        let body = r.inst.body();
        let res: R<()> = (|| {
            let body = body.as_ref().ok_or("rule without body")?;
            let n = body.arg_locals().len();
            let mut args = vec![];
            let mut tys = vec![];
            for i in 0..n {
                let ty = body.arg_locals()[i].ty;
                let nm = body.var_debug_info.iter().find(|v| match &v.value { VarDebugInfoContents::Place(p) => p.local == i + 1 && p.projection.is_empty(), _ => false })
                    .map(|v| v.name.to_string()).unwrap_or_else(|| format!("arg{i}"));
                args.push(it.input_val(&mut st, ty, &nm)?);
                tys.push(ty);
            }
            it.call_instance(r.inst, args, Some(tys), st, 0)?;
            it.finish_panics();
            if let Some(g) = &it.d.giveup { return Err(g.clone()); }
            Ok(())
        })();
        stats = (it.steps, it.joins, it.d.n_nodes(), it.d.alg.polys.len());
        let mut obs = std::mem::take(&mut it.obs);
        if res.is_ok() && obs.is_empty() {
            obs.push(Ob { key: format!("{}!empty", r.name), ok: false, detail: "the rule stated no obligation (nothing after the call is reachable)".into(), method: "violated" });
        }
        let bad = obs.iter().filter(|o| !o.ok).count() + if res.is_err() { 1_000_000 } else { 0 };
        let e = res.err().map(|e| format!("{e}; stack: {}; at {}", it.stack.join(" > "), it.show_org(it.cur_org)));
        it.stack.clear();
        let better = best.as_ref().map_or(true, |b| bad < b.0);
        if better { best = Some((bad, obs, e, it.d.alg.n_exact, it.d.alg.n_hash)); }
        if bad == 0 { break; }
        if t0.elapsed().as_secs() * 2 > secs { break; }
        // a different fingerprint point can only matter when values were compared by fingerprint
    }
    let (_, obs, e, nex, nh) = best.unwrap();
    let mut s = String::new();
    s.push_str(&format!("{{\"rule\":{},\"tries\":{},\"ms\":{},\"steps\":{},\"joins\":{},\"nodes\":{},\"values\":{},\"exact\":{},\"hash\":{},\"calls\":{},\"error\":{},\"obs\":[",
        js(&r.name), tries, t0.elapsed().as_millis(), stats.0, stats.1, stats.2, stats.3, nex, nh, it.call_sites - calls0, e.as_ref().map_or("null".into(), |e| js(e))));
    for (i, o) in obs.iter().enumerate() {
        if i > 0 { s.push(','); }
        s.push_str(&format!("{{\"key\":{},\"ok\":{},\"method\":{},\"detail\":{}}}", js(&o.key), o.ok, js(o.method), js(&o.detail)));
    }
    s.push_str("],\"functions\":[");
    let mut first = true;
    for (n, (loc, repo, c)) in &it.analysed {
        if !*repo || an0.get(n).map_or(0, |x| x.2) == *c { continue; }
        if !first { s.push(','); }
        first = false;
        s.push_str(&format!("[{},{}]", js(n), js(loc)));
    }
    s.push_str(&format!("],\"core_functions\":{}}}", it.analysed.iter().filter(|x| !x.1 .1).count()));
    s
}

fn analyze() -> ControlFlow<(), ()> {
    let prop = env("SM_PROP").unwrap_or_default();
    let out = env("SM_OUT").unwrap_or_else(|| "/dev/stdout".into());
    let prefix = env("SM_REPO").unwrap_or_else(|| "/repo/src".into());
    let only = env("SM_RULE");
    let secs: u64 = env("SM_SECS").and_then(|s| s.parse().ok()).unwrap_or(300);
    let jobs: usize = env("SM_JOBS").and_then(|s| s.parse().ok()).unwrap_or(8);
    if env("SM_MODE").as_deref() == Some("effects") {
        std::fs::write(&out, effects::run(&env("SM_CRATE").unwrap_or_default())).expect("write result");
        return ControlFlow::Break(());
    }
    let mut rules = vec![];
    for item in rustc_public::all_local_items() {
        if !Interp::is_item_fn(&item) { continue; }
        let n = item.name();
        let Some(last) = n.rsplit("::").next() else { continue };
        if !last.starts_with("r_") { continue; }
        let is_prop = |p: &str| p.len() == 3 && p.starts_with('c') && p[1..].bytes().all(|b| b.is_ascii_digit());
        let parts: Vec<&str> = n.split("::").collect();
        let Some(mi) = parts.iter().position(|p| is_prop(p)) else { continue };
        let m = parts[mi];
        let rname = parts[mi..].join("::");
        if !prop.is_empty() && prop != "all" && !prop.split(',').any(|p| p == m) { continue; }
        if let Some(o) = &only { if !rname.contains(o.as_str()) { continue; } }
        match Instance::try_from(item) {
            Ok(inst) => rules.push(Rule { name: rname, inst }),
            Err(e) => eprintln!("smcheck: rule {n} is generic: {e:?}"),
        }
    }
    rules.sort_by(|a, b| a.name.cmp(&b.name));
    // development aid: a given list of rules, in that order, up to the first that fails
    let stop = env("SM_LIST").is_some();
    if let Some(f) = env("SM_LIST") {
        let order: Vec<String> = std::fs::read_to_string(&f).expect("list").lines().map(|l| l.to_string()).collect();
        let mut m: std::collections::HashMap<String, Rule> = rules.drain(..).map(|r| (r.name.clone(), r)).collect();
        rules = order.iter().filter_map(|n| m.remove(n)).collect();
    }
    let jobs = jobs.min(rules.len()).max(1);
    // heavier rules are spread by taking indices from a shared list through a pipe-free scheme: strided
    let mut pids = vec![];
    for w in 0..jobs {
        let part = format!("{out}.part{w}");
        let pid = if jobs == 1 { 0 } else { unsafe { fork() } };
        if pid == 0 {
            // bound the memory of one worker (the stack counts too); RLIMIT_DATA = 2
            let lim = [9_000_000_000u64; 2];
            if jobs > 1 { unsafe { setrlimit(2, &lim); } }
            let mut f = std::fs::File::create(&part).expect("part file");
            let mut it = Interp::new(11, &prefix);
            let lock = format!("{out}.lock");
            for (i, r) in rules.iter().enumerate() {
                // dynamic distribution: claim a rule by creating its marker exclusively
                if jobs > 1 && std::fs::OpenOptions::new().write(true).create_new(true).open(format!("{lock}{i}")).is_err() { continue; }
                let s = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_rule(&mut it, r, secs))) {
                    Ok(s) => s,
                    Err(p) => {
                        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        it = Interp::new(11, &prefix);
                        format!("{{\"rule\":{},\"tries\":1,\"ms\":0,\"steps\":0,\"joins\":0,\"nodes\":0,\"values\":0,\"exact\":0,\"hash\":0,\"calls\":0,\"error\":{},\"obs\":[],\"functions\":[],\"core_functions\":0}}", js(&r.name), js(&format!("analysis failed internally: {m}")))
                    }
                };
                writeln!(f, "{s}").expect("write part");
                if stop && (s.contains("\"ok\":false") || !s.contains("\"error\":null")) { break; }
            }
            drop(f);
            if jobs > 1 { unsafe { _exit(0) } }
        } else { pids.push(pid); }
    }
    for p in pids { let mut st = 0; unsafe { waitpid(p, &mut st, 0) }; }
    let mut all = vec![];
    for w in 0..jobs {
        let part = format!("{out}.part{w}");
        if let Ok(s) = std::fs::read_to_string(&part) { all.extend(s.lines().map(|l| l.to_string())); }
        let _ = std::fs::remove_file(&part);
    }
    for i in 0..rules.len() { let _ = std::fs::remove_file(format!("{out}.lock{i}")); }
    all.sort();
    let names: Vec<String> = rules.iter().map(|r| js(&r.name)).collect();
    std::fs::write(&out, format!("{{\"rules\":[{}],\"results\":[\n{}\n]}}\n", names.join(","), all.join(",\n"))).expect("write result");
    ControlFlow::Break(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let rest: Vec<String> = args[1..].to_vec();
    let krate = rest.iter().position(|a| a == "--crate-name").and_then(|i| rest.get(i + 1).cloned()).unwrap_or_default();
    let want = env("SM_CRATE").unwrap_or_else(|| "anchors".into());
    if krate != want || env("SM_OUT").is_none() {
        let st = std::process::Command::new(&rest[0]).args(&rest[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = run!(&rest, analyze);
    match r {
        Ok(_) | Err(rustc_public::CompilerError::Interrupted(_)) => std::process::exit(0),
        _ => std::process::exit(1),
    }
}
