//! Parent/worker driver: generation, crash isolation, shrinking, replay, evidence.

use crate::case::{shrink, Case, Rng};
use crate::obs::Obs;
use crate::props::{self, Prop};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Which executable runs the cases of a phase.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Exe {
    /// Optimised, debug assertions and overflow checks on.
    Checked,
    /// Optimised, debug assertions and overflow checks off (what users ship).
    Ship,
    /// AddressSanitizer (nightly).
    Asan,
    /// Miri, memory checks only.
    Miri,
    /// Miri with the Tree Borrows aliasing model.
    MiriTree,
    /// Checked, on a copy of the crate with another order.
    Order(u8),
}

pub struct Phase {
    pub name: &'static str,
    pub exe: Exe,
    /// Cases 0..enumerated come from `Prop::enumerate`, the next `random` ones from `Prop::gen`.
    pub enumerated: u64,
    pub random: u64,
}

pub const FAIL: i32 = 10;
pub const OOM: i32 = 77;

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let get = |i: usize| a.get(i).cloned().unwrap_or_default();
    match get(1).as_str() {
        "worker" => worker(&a[2..]),
        "exec" => exec(&get(2), &get(3), a.iter().any(|x| x == "-v")),
        "replay" => exec("", &get(2), true),
        "check" => check(&get(2)),
        "gen" => {
            // print generated cases: pbt gen C01 phase index
            let p = props::find(&get(2)).unwrap();
            let c = make_case(&p, get(3).parse().unwrap(), seed(), tier(), get(4).parse().unwrap());
            print!("{}", c.to_text(p.id, &(p.describe)(&c)));
            0
        }
        "order" => {
            println!("{}", raw_btree::M);
            0
        }
        "list" => {
            for p in props::all() {
                println!("{}", p.id)
            }
            0
        }
        _ => {
            eprintln!("usage: pbt check ID | replay FILE | gen ID PHASE INDEX");
            2
        }
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn tier() -> Tier {
    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn make_case(p: &Prop, phase: usize, seed: u64, tier: Tier, idx: u64) -> Case {
    let ph = &(p.phases)(tier)[phase];
    if idx < ph.enumerated {
        (p.enumerate)(idx, phase, tier)
    } else {
        let salt = seed ^ ((phase as u64) << 48) ^ if tier == Tier::Thorough { 1 << 60 } else { 0 };
        let mut r = Rng::for_case(salt, p.id, idx - ph.enumerated);
        (p.gen)(&mut r, phase, tier)
    }
}

// ------------------------------------------------------------------ running one case

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{msg} at {loc}")
            }
        });
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs one case: Ok, or Err(what went wrong). Panics of the code under test that no property expects are failures.
///
/// A case that exhausts a step budget is run again with budgets 64 times as large: what does not terminate exhausts
/// those too, what was merely more work than foreseen does not.
pub fn run_case(p: &Prop, c: &Case, obs: &mut Obs) -> Result<(), String> {
    crate::fuel::ran_out();
    let r = run_once(p, c, obs);
    if r.is_err() && crate::fuel::ran_out() {
        obs.hit("cases run again with larger step budgets");
        crate::fuel::set_factor(64);
        let r = run_once(p, c, obs);
        crate::fuel::set_factor(1);
        return r;
    }
    r
}

fn run_once(p: &Prop, c: &Case, obs: &mut Obs) -> Result<(), String> {
    crate::ledger::reset();
    crate::fuel::reset();
    crate::store::reset();
    obs.nontrivial = false;
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(c, obs))) {
        Ok(r) => r,
        Err(e) => {
            let m = last_panic();
            std::mem::forget(e);
            // The ledger may know better why.
            crate::ledger::check()?;
            Err(format!("PANIC: {m}"))
        }
    }
}

fn exec(prop: &str, file: &str, verbose: bool) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let (id, c) = match Case::from_text(&text) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let id = if prop.is_empty() { id } else { prop.to_string() };
    let Some(p) = props::find(&id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    quiet_panics();
    let mut o = Obs { verbose, ..Default::default() };
    if verbose {
        println!("{}", (p.describe)(&c));
    }
    match run_case(&p, &c, &mut o) {
        Ok(()) => {
            println!("PASS");
            0
        }
        Err(m) => {
            println!("FAIL {m}");
            FAIL
        }
    }
}

// ------------------------------------------------------------------ worker

/// worker ID PHASE SEED TIER W NW N DIR
fn unix_now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0)
}

fn worker(a: &[String]) -> i32 {
    let id = &a[0];
    let phase: usize = a[1].parse().unwrap();
    let seed: u64 = a[2].parse().unwrap();
    let tier = if a[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let w: u64 = a[4].parse().unwrap();
    let nw: u64 = a[5].parse().unwrap();
    let n: u64 = a[6].parse().unwrap();
    let dir = PathBuf::from(&a[7]);
    let p = props::find(id).expect("property");
    quiet_panics();
    let mut progress = std::fs::File::create(dir.join(format!("p{w}"))).unwrap();
    let stop = dir.join("stop");
    let mut obs = Obs::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut done = 0u64;
    let mut nontrivial = 0u64;
    let mut idx = w;
    let mut fail: Option<(u64, String)> = None;
    let timing = std::env::var("PBT_TIME").is_ok();
    let deadline = std::env::var("PBT_DEADLINE").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(u64::MAX);
    // generating is too much work for an interpreter: it is given its cases
    let given = cfg!(miri).then(|| read_cases(&std::fs::read(dir.join(format!("cases{w}"))).unwrap_or_default()));
    while idx < n {
        if (cfg!(miri) || done % 64 == 0) && unix_now() > deadline {
            // a machine much slower than planned for: what was explored is what the evidence says
            obs.hit("workers out of time");
            break;
        }
        if done % 16 == 0 {
            if let Ok(s) = std::fs::read_to_string(&stop) {
                if s.trim().parse::<u64>().map(|f| idx > f).unwrap_or(false) {
                    break;
                }
            }
        }
        let _ = progress.seek(SeekFrom::Start(0));
        let _ = progress.write_all(&(idx + 1).to_le_bytes());
        let c = match &given {
            Some(g) => g[((idx - w) / nw) as usize].clone(),
            None => make_case(&p, phase, seed, tier, idx),
        };
        let t0 = Instant::now();
        let r = run_case(&p, &c, &mut obs);
        if timing {
            eprintln!("TIME {:.3} case {idx} {}", t0.elapsed().as_secs_f64(), clip(&(p.describe)(&c), 120));
        }
        done += 1;
        if obs.nontrivial {
            nontrivial += 1;
            seen.insert(c.hash64());
        }
        if let Err(m) = r {
            fail = Some((idx, m));
            break;
        }
        idx += nw;
    }
    let mut out = format!("done {done}\nnontrivial {nontrivial}\n");
    for (k, v) in &obs.counts {
        out.push_str(&format!("count {v} {k}\n"));
    }
    if let Some((i, m)) = &fail {
        out.push_str(&format!("fail {i} {}\n", m.replace('\n', " / ")));
    }
    std::fs::write(dir.join(format!("r{w}")), out).unwrap();
    let mut h = Vec::with_capacity(seen.len() * 8);
    for s in seen {
        h.extend_from_slice(&s.to_le_bytes());
    }
    std::fs::write(dir.join(format!("h{w}")), h).unwrap();
    // No unwinding/teardown surprises after a failure.
    if fail.is_some() {
        std::process::exit(FAIL);
    }
    0
}

fn write_cases(v: &[Case]) -> Vec<u8> {
    let mut b = vec![];
    let mut put = |x: u32| b.extend_from_slice(&x.to_le_bytes());
    for c in v {
        put(c.params.len() as u32);
        c.params.iter().for_each(|p| put(*p));
        put(c.recs.len() as u32);
        c.recs.iter().for_each(|r| [r.k, r.a, r.b].into_iter().for_each(&mut put));
    }
    b
}
fn read_cases(b: &[u8]) -> Vec<Case> {
    let mut v = vec![];
    let mut i = 0;
    let mut get = || {
        i += 4;
        b.get(i - 4..i).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]]))
    };
    while let Some(n) = get() {
        let mut c = Case::default();
        for _ in 0..n {
            c.params.push(get().unwrap());
        }
        for _ in 0..get().unwrap() {
            c.recs.push(crate::case::Rec { k: get().unwrap(), a: get().unwrap(), b: get().unwrap() });
        }
        v.push(c);
    }
    v
}

// ------------------------------------------------------------------ parent

pub fn nworkers() -> u64 {
    std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 8)
}

fn exe_cmd(e: Exe, id: &str) -> Command {
    let v = verif_dir();
    let t = v.join("harness/target");
    match e {
        Exe::Checked => Command::new(t.join(format!("bin/{id}-release"))),
        Exe::Ship => Command::new(t.join(format!("bin/{id}-ship"))),
        Exe::Order(m) => Command::new(t.join(format!("bin/{id}-order{m}"))),
        Exe::Asan => {
            let mut c = Command::new(t.join(format!("bin/{id}-asan")));
            c.env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:handle_segv=1");
            c
        }
        Exe::Miri | Exe::MiriTree => {
            let mut c = Command::new("cargo");
            c.arg("+nightly")
                .arg("miri")
                .arg("run")
                .arg("-q")
                .arg("--offline")
                .arg("--profile")
                .arg("ship")
                .arg("--no-default-features")
                .arg("--features")
                .arg(id.to_lowercase())
                .arg("--manifest-path")
                .arg(v.join("harness/Cargo.toml"))
                .arg("--target-dir")
                .arg(t.join(if e == Exe::Miri { "miri" } else { "miritree" }))
                .arg("--");
            c.env_remove("RUSTFLAGS");
            c.env_remove("RUSTUP_TOOLCHAIN");
            c.env(
                "MIRIFLAGS",
                if e == Exe::Miri {
                    "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows"
                } else {
                    "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows"
                },
            );
            c
        }
    }
}

fn wait_timeout(ch: &mut Child, d: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    let mut nap = 200u64;
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) if t.elapsed() > d => {
                let _ = ch.kill();
                let _ = ch.wait();
                return None;
            }
            _ => {
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap * 3 / 2).min(20_000)
            }
        }
    }
}

enum Verdict {
    Pass,
    Fail(String),
    Error(String),
}

/// Re-executes a case in a subprocess.
fn exec_sub(exe: Exe, id: &str, c: &Case, dir: &Path, tag: &str, timeout: Duration) -> Verdict {
    let f = dir.join(format!("cand{tag}"));
    let of = dir.join(format!("out{tag}"));
    if std::fs::write(&f, c.to_text(id, "")).is_err() {
        return Verdict::Error("cannot write candidate".into());
    }
    let out = std::fs::File::create(&of).unwrap();
    let err = out.try_clone().unwrap();
    let mut cmd = exe_cmd(exe, id);
    cmd.arg("exec").arg(id).arg(&f).stdin(Stdio::null()).stdout(out).stderr(err);
    let mut ch = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => return Verdict::Error(format!("spawn: {e}")),
    };
    match wait_timeout(&mut ch, timeout) {
        None => Verdict::Error("timeout".into()),
        Some(s) => {
            let text = std::fs::read(&of).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
            classify(exe, s, &text)
        }
    }
}

fn classify(exe: Exe, s: std::process::ExitStatus, text: &str) -> Verdict {
    use std::os::unix::process::ExitStatusExt;
    match (s.code(), s.signal()) {
        (Some(0), _) => Verdict::Pass,
        (Some(FAIL), _) => Verdict::Fail(
            text.lines().filter_map(|l| l.strip_prefix("FAIL ")).next_back().unwrap_or("failed").to_string(),
        ),
        (Some(OOM), _) => Verdict::Error("memory limit reached".into()),
        (_, Some(9)) | (_, Some(15)) => Verdict::Error("killed".into()),
        (_, Some(sig)) => {
            if text.contains("memory allocation of") {
                return Verdict::Error("out of memory".into());
            }
            let what = text
                .lines()
                .find(|l| l.contains("ERROR: AddressSanitizer"))
                .map(|l| l.trim().to_string())
                .unwrap_or_else(|| {
                    if text.contains("stack overflow") {
                        "stack overflow".into()
                    } else {
                        String::new()
                    }
                });
            Verdict::Fail(format!("CRASH: signal {sig} {what}"))
        }
        (code, _) => {
            if exe == Exe::Miri || exe == Exe::MiriTree {
                if let Some(l) = text.lines().find(|l| {
                    l.starts_with("error: Undefined Behavior")
                        || l.starts_with("error: memory leaked")
                        || l.starts_with("error: abnormal termination")
                }) {
                    return Verdict::Fail(format!("MIRI: {}", &l[7..]));
                }
            }
            let tail: String = text.lines().rev().take(3).collect::<Vec<_>>().join(" / ");
            Verdict::Error(format!("exit code {code:?}: {tail}"))
        }
    }
}

pub struct Outcome {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub counts: BTreeMap<String, u64>,
    pub phases: Vec<(String, u64, f64)>,
    pub samples: Vec<String>,
    pub violation: Option<(String, String)>, // (message, replay path)
    pub error: Option<String>,
}

fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let (seed, tier) = (seed(), tier());
    let scratch = std::env::temp_dir().join(format!("pbt-{}-{}", id, std::process::id()));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).unwrap();
    let programs = crate::programs::explore(id, seed, tier, &scratch);
    let prop = props::find(id);
    let rule = match (&prop, id) {
        (_, "C19") => crate::programs::C19_RULE,
        (_, "C23") => crate::programs::C23_RULE,
        (Some(p), _) => p.rule,
        _ => {
            eprintln!("unknown property {id}");
            return 2;
        }
    };
    let o = match (programs, &prop) {
        (Some(o), None) => o,
        (Some(o), _) if o.violation.is_some() || o.error.is_some() => o,
        (programs, Some(p)) => {
            let mut o = run_phases(p, seed, tier, &scratch);
            if let Some(q) = programs {
                o.evaluations += q.evaluations;
                o.nontrivial += q.nontrivial;
                o.distinct += q.distinct;
                o.counts.extend(q.counts);
                o.phases.splice(0..0, q.phases);
                o.samples.splice(0..0, q.samples);
            }
            o
        }
        (None, None) => return 2,
    };
    let _ = std::fs::remove_dir_all(&scratch);
    for k in crate::props::known_findings(id) {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    finish(id, rule, seed, tier, t0, &o)
}

pub fn finish(id: &str, rule: &str, seed: u64, tier: Tier, t0: Instant, o: &Outcome) -> i32 {
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(id, rule, seed, tier, wall, o);
    println!(
        "{id}: {} cases, {} non-trivial ({} distinct), {:.1}s",
        o.evaluations, o.nontrivial, o.distinct, wall
    );
    for (n, c, s) in &o.phases {
        println!("  phase {n}: {c} cases in {s:.1}s");
    }
    let mut line = String::new();
    for (k, v) in &o.counts {
        line.push_str(&format!(" {k}={v}"));
    }
    println!("  classes:{line}");
    if let Some((m, r)) = &o.violation {
        println!("{m}");
        println!("VIOLATION property={id} replay={r}");
        return 1;
    }
    if let Some(e) = &o.error {
        println!("ERROR: {e}");
        return 2;
    }
    if o.distinct < 2 {
        println!("ERROR: hardly any non-trivial case was generated");
        return 2;
    }
    0
}

fn run_phases(p: &Prop, seed: u64, tier: Tier, scratch: &Path) -> Outcome {
    let mut o = Outcome {
        evaluations: 0,
        nontrivial: 0,
        distinct: 0,
        counts: BTreeMap::new(),
        phases: vec![],
        samples: vec![],
        violation: None,
        error: None,
    };
    let limit = Duration::from_secs(if tier == Tier::Quick { 780 } else { 6 * 3600 });
    // what the builds took counts too, but leaves at least a tenth for the search
    let building = std::env::var("PBT_T0").ok().and_then(|s| s.parse::<u64>().ok()).map_or(0, |t| unix_now().saturating_sub(t));
    let spent = building.min(limit.as_secs() * 9 / 10);
    let soft = unix_now() + (limit.as_secs() * 5 / 6).saturating_sub(spent).max(limit.as_secs() / 12);
    let limit = limit - Duration::from_secs(spent);
    let t0 = Instant::now();
    let mut hashes: HashSet<u64> = HashSet::new();
    let phases = (p.phases)(tier);
    for (pi, ph) in phases.iter().enumerate() {
        let tp = Instant::now();
        let n = ph.enumerated + ph.random;
        if let Exe::Order(m) = ph.exe {
            let bin = verif_dir().join("harness/target/bin");
            if let Ok(text) = std::fs::read_to_string(bin.join(format!("{}-order{m}.rejected", p.id))) {
                o.violation = Some(rejected(p.id, m, &text));
                return o;
            }
            if !bin.join(format!("{}-order{m}", p.id)).exists() {
                *o.counts.entry("orders that could not be set".into()).or_insert(0) += 1;
                continue;
            }
        }
        let dir = scratch.join(format!("ph{pi}"));
        std::fs::create_dir_all(&dir).unwrap();
        let nw = nworkers().min(n.max(1));
        let mut kids: Vec<(u64, Child)> = vec![];
        for w in 0..nw {
            let out = std::fs::File::create(dir.join(format!("log{w}"))).unwrap();
            let err = out.try_clone().unwrap();
            if matches!(ph.exe, Exe::Miri | Exe::MiriTree) {
                let mine: Vec<Case> = (w..n).step_by(nw as usize).map(|i| make_case(p, pi, seed, tier, i)).collect();
                std::fs::write(dir.join(format!("cases{w}")), write_cases(&mine)).unwrap();
            }
            let mut cmd = exe_cmd(ph.exe, p.id);
            cmd.arg("worker")
                .arg(p.id)
                .arg(pi.to_string())
                .arg(seed.to_string())
                .arg(if tier == Tier::Thorough { "thorough" } else { "quick" })
                .arg(w.to_string())
                .arg(nw.to_string())
                .arg(n.to_string())
                .arg(&dir)
                .env("PBT_DEADLINE", soft.to_string())
                .stdin(Stdio::null())
                .stdout(out)
                .stderr(err);
            match cmd.spawn() {
                Ok(c) => kids.push((w, c)),
                Err(e) => {
                    o.error = Some(format!("cannot start worker: {e}"));
                    return o;
                }
            }
        }
        let mut fails: Vec<(u64, String)> = vec![];
        let mut lowest = u64::MAX;
        while !kids.is_empty() {
            let mut i = 0;
            let mut progress = false;
            while i < kids.len() {
                match kids[i].1.try_wait() {
                    Ok(Some(st)) => {
                        progress = true;
                        let (w, _) = kids.remove(i);
                        let log =
                            std::fs::read(dir.join(format!("log{w}"))).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
                        let at = read_progress(&dir.join(format!("p{w}")));
                        let verdict = classify(ph.exe, st, &log);
                        let mut f = None;
                        match verdict {
                            Verdict::Pass => (),
                            Verdict::Fail(m) => {
                                let rep = std::fs::read_to_string(dir.join(format!("r{w}"))).unwrap_or_default();
                                let line = rep.lines().filter_map(|l| l.strip_prefix("fail ")).next().map(|l| {
                                    let mut x = l.splitn(2, ' ');
                                    (
                                        x.next().unwrap_or("").parse::<u64>().unwrap_or(0),
                                        x.next().unwrap_or("").to_string(),
                                    )
                                });
                                f = Some(match line {
                                    Some(x) => x,
                                    None if at > 0 => (at - 1, m),
                                    None => {
                                        o.error = Some(format!("worker failed before its first case: {m}"));
                                        continue;
                                    }
                                });
                            }
                            Verdict::Error(m) => {
                                let idx = at.saturating_sub(1);
                                o.error = Some(format!("worker {w} at case {idx} of phase {}: {m}", ph.name));
                            }
                        }
                        if let Some(f) = f {
                            if f.0 < lowest {
                                lowest = f.0;
                                let _ = std::fs::write(dir.join("stop.tmp"), lowest.to_string());
                                let _ = std::fs::rename(dir.join("stop.tmp"), dir.join("stop"));
                            }
                            fails.push(f);
                        }
                    }
                    _ => i += 1,
                }
            }
            if t0.elapsed() > limit {
                for (w, k) in kids.iter_mut() {
                    let _ = k.kill();
                    let _ = k.wait();
                    let at = read_progress(&dir.join(format!("p{w}")));
                    o.error =
                        Some(format!("watchdog: inconclusive after {:?}, worker {w} at case {}", limit, at.saturating_sub(1)));
                }
                kids.clear();
            }
            if !progress {
                std::thread::sleep(Duration::from_millis(5));
            }
        }
        // collect
        for w in 0..nw {
            let rep = std::fs::read_to_string(dir.join(format!("r{w}"))).unwrap_or_default();
            for l in rep.lines() {
                let mut x = l.splitn(3, ' ');
                match (x.next(), x.next(), x.next()) {
                    (Some("done"), Some(v), _) => o.evaluations += v.parse::<u64>().unwrap_or(0),
                    (Some("nontrivial"), Some(v), _) => o.nontrivial += v.parse::<u64>().unwrap_or(0),
                    (Some("count"), Some(v), Some(k)) => {
                        *o.counts.entry(k.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0)
                    }
                    _ => (),
                }
            }
            if let Ok(h) = std::fs::read(dir.join(format!("h{w}"))) {
                for c in h.chunks_exact(8) {
                    hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
        }
        o.distinct = hashes.len() as u64;
        o.phases.push((ph.name.to_string(), n, tp.elapsed().as_secs_f64()));
        for idx in [0, ph.enumerated, ph.enumerated + ph.random / 2] {
            if idx < n && o.samples.len() < 9 {
                let c = case_of(p, ph.exe, pi, seed, tier, idx);
                o.samples.push(format!("phase {} case {idx}: {}", ph.name, clip(&(p.describe)(&c), 700)));
            }
        }
        if let Some(f) = fails.into_iter().min() {
            o.error = None;
            let c = case_of(p, ph.exe, pi, seed, tier, f.0);
            println!("case {} of phase {} fails: {}", f.0, ph.name, f.1);
            o.violation = Some(minimise(p, ph.exe, &c, &f.1, scratch));
            return o;
        }
        if o.error.is_some() {
            return o;
        }
    }
    o
}

/// A copy of the crate with a permitted order does not compile.
fn rejected(id: &str, m: u8, text: &str) -> (String, String) {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-order{m}.txt"));
    let text = format!(
        "property {id}: the crate does not compile with the constant M (src/lib.rs) set to {m}, which its documentation permits\n\n{text}"
    );
    let _ = std::fs::write(&path, text);
    (format!("the crate does not compile with the order {m}"), path.display().to_string())
}

/// The case of an index; generators use the order of the executable that runs the case.
fn case_of(p: &Prop, exe: Exe, phase: usize, seed: u64, tier: Tier, idx: u64) -> Case {
    if let Exe::Order(_) = exe {
        let out = exe_cmd(exe, p.id)
            .args(["gen", p.id, &phase.to_string(), &idx.to_string()])
            .env("VERIF_SEED", seed.to_string())
            .env("VERIF_TIER", if tier == Tier::Thorough { "thorough" } else { "quick" })
            .output();
        if let Some((_, c)) = out.ok().and_then(|o| Case::from_text(&String::from_utf8_lossy(&o.stdout)).ok()) {
            return c;
        }
    }
    make_case(p, phase, seed, tier, idx)
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1
        }
        format!("{}... ({} bytes)", &s[..e], s.len())
    }
}

fn read_progress(f: &Path) -> u64 {
    let mut b = [0u8; 8];
    match std::fs::File::open(f).and_then(|mut f| f.read_exact(&mut b)) {
        Ok(()) => u64::from_le_bytes(b),
        Err(_) => 0,
    }
}

fn minimise(p: &Prop, exe: Exe, c: &Case, msg: &str, scratch: &Path) -> (String, String) {
    let slow = exe == Exe::Miri || exe == Exe::MiriTree;
    let mut budget: u32 = if slow { 60 } else { 1500 };
    let t0 = Instant::now();
    let wall = Duration::from_secs(60);
    let mut last = msg.to_string();
    // In-subprocess shrinking; the verdict does not depend on how far it gets.
    let small = shrink(c.clone(), &mut budget, |cand| {
        if t0.elapsed() > wall {
            return false;
        }
        match exec_sub(exe, p.id, cand, scratch, "s", Duration::from_secs(if slow { 60 } else { 10 })) {
            Verdict::Fail(m) => {
                last = m;
                true
            }
            _ => false,
        }
    });
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.case", p.id, small.hash64()));
    let note = format!("{last}\nexecutable: {exe:?}\n{}", (p.describe)(&small));
    let _ = std::fs::write(&path, small.to_text(p.id, &note));
    (format!("shrunk from {} to {} records: {last}", c.recs.len(), small.recs.len()), path.display().to_string())
}

// ------------------------------------------------------------------ evidence

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_evidence(id: &str, rule: &str, seed: u64, tier: Tier, wall: f64, o: &Outcome) {
    let mut j = String::new();
    j.push_str(&format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {seed},\n \"level\": \"{}\",\n \"coverage\": {{\n",
        json_str(id),
        if tier == Tier::Quick { "quick" } else { "thorough" },
        if id == "C07" { "fault_enumeration" } else { "exploration" }
    ));
    j.push_str(&format!(
        "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"nontrivial_evaluations\": {},\n  \"rule\": {},\n",
        o.evaluations,
        o.distinct,
        o.nontrivial,
        json_str(rule)
    ));
    j.push_str("  \"phases\": [");
    for (i, (n, c, s)) in o.phases.iter().enumerate() {
        j.push_str(&format!(
            "{}{{\"name\": {}, \"cases\": {c}, \"seconds\": {s:.2}}}",
            if i > 0 { ", " } else { "" },
            json_str(n)
        ));
    }
    j.push_str("],\n  \"classes\": {");
    for (i, (k, v)) in o.counts.iter().enumerate() {
        j.push_str(&format!("{}{}: {v}", if i > 0 { ", " } else { "" }, json_str(k)));
    }
    j.push_str("},\n  \"samples\": [");
    for (i, s) in o.samples.iter().enumerate() {
        j.push_str(&format!("{}\n   {}", if i > 0 { "," } else { "" }, json_str(s)));
    }
    j.push_str(&format!(
        "\n  ]\n }},\n \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n",
        o.violation.is_some() as u32
    ));
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{id}.json")), j);
}
