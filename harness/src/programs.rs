//! Properties whose inputs are programs (C19, C23): Rust source is generated, rustc's verdict on it is the observation.

use crate::case::{Fnv, Rng};
use crate::driver::{Outcome, Tier};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const C19_RULE: &str = "programs: an item type that lacks Send or Sync, seen through one handle; schedules: several threads read a tree of more than one node";
pub const C23_RULE: &str = "a pair of programs, one with and one without the late use of the borrow, both judged by rustc";

pub fn explore(id: &str, seed: u64, tier: Tier, scratch: &Path) -> Option<Outcome> {
    let f = match id {
        "C19" => c19,
        "C23" => c23,
        _ => return None,
    };
    let mut o = Outcome {
        evaluations: 0,
        nontrivial: 0,
        distinct: 0,
        counts: BTreeMap::new(),
        phases: vec![],
        samples: vec![],
        violation: None,
        error: None,
    };
    let t0 = std::time::Instant::now();
    if let Err(e) = f(seed, tier, scratch, &mut o) {
        o.error = Some(e);
    }
    o.phases.push(("generated programs".into(), o.evaluations, t0.elapsed().as_secs_f64()));
    Some(o)
}

fn repo() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into()))
}

fn rustc(dir: &Path) -> Command {
    let mut c = Command::new("rustc");
    c.current_dir(dir).arg("--edition=2021").arg("-Awarnings").stdin(Stdio::null()).env_remove("RUSTFLAGS");
    c
}
/// Builds the crate under test as a library the programs can use.
fn library(dir: &Path) -> Result<(), String> {
    let out = rustc(dir)
        .args(["--crate-type=rlib", "--crate-name=raw_btree", "--cfg=feature=\"dot\"", "-Cdebug-assertions=on", "-o", "libraw_btree.rlib"])
        .arg(repo().join("src/lib.rs"))
        .output()
        .map_err(|e| format!("rustc: {e}"))?;
    if out.status.success() {
        Ok(())
    } else {
        Err(format!("the crate does not compile: {}", crate::driver::clip(&String::from_utf8_lossy(&out.stderr), 1500)))
    }
}

/// Compiles one file; the errors as (line, text). `run`: link, and run it, giving its output.
fn compile(dir: &Path, name: &str, text: &str, run: bool) -> Result<(Vec<(usize, String)>, String), String> {
    let file = dir.join(format!("{name}.rs"));
    std::fs::write(&file, text).map_err(|e| e.to_string())?;
    let mut c = rustc(dir);
    c.arg(format!("{name}.rs")).args(["--extern", "raw_btree=libraw_btree.rlib", "--error-format=short"]);
    if run {
        c.args(["--crate-type=bin", "-o", name]);
    } else {
        c.args(["--crate-type=lib", "--emit=metadata"]);
    }
    let out = c.output().map_err(|e| format!("rustc: {e}"))?;
    let text = String::from_utf8_lossy(&out.stderr);
    let mut errors = vec![];
    for l in text.lines() {
        if let Some(r) = l.strip_prefix(&format!("{name}.rs:")) {
            let mut p = r.splitn(3, ':');
            let line = p.next().and_then(|x| x.trim().parse::<usize>().ok());
            let rest = p.nth(1).unwrap_or("").trim();
            if let (Some(line), true) = (line, rest.starts_with("error")) {
                errors.push((line, rest.to_string()));
            }
        }
    }
    if out.status.success() != errors.is_empty() {
        return Err(format!("rustc ended strangely: {}", crate::driver::clip(&text, 1500)));
    }
    let mut said = String::new();
    if run && errors.is_empty() {
        let out = Command::new(dir.join(name)).output().map_err(|e| e.to_string())?;
        if !out.status.success() {
            return Err(format!("the generated program fails: {}", String::from_utf8_lossy(&out.stderr)));
        }
        said = String::from_utf8_lossy(&out.stdout).into_owned();
    }
    Ok((errors, said))
}

fn replay(id: &str, what: &str, program: &str) -> String {
    let dir = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())).join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let mut h = Fnv::new();
    program.bytes().for_each(|b| h.u64(b as u64));
    let path = dir.join(format!("{id}-{:016x}.rs", h.0));
    let text = format!(
        "// property {id}\n// {what}\n// rustc --edition=2021 --crate-type=rlib --crate-name=raw_btree -o /tmp/libraw_btree.rlib /repo/src/lib.rs\n// rustc --edition=2021 --crate-type=lib --emit=metadata --out-dir /tmp --extern raw_btree=/tmp/libraw_btree.rlib <this file>\n{program}"
    );
    let _ = std::fs::write(&path, text);
    path.display().to_string()
}

// ------------------------------------------------------------------ C19: auto traits

#[derive(Clone)]
struct Ty {
    text: String,
    /// smaller types inside, for shrinking
    parts: Vec<Ty>,
}

fn ty(r: &mut Rng, depth: u32) -> Ty {
    let atom = |s: &str| Ty { text: s.into(), parts: vec![] };
    if depth == 0 || r.chance(1, 4) {
        return atom(r.pick(&[
            "u8", "String", "()", "std::rc::Rc<u8>", "std::cell::Cell<u8>", "*const u8", "std::sync::atomic::AtomicU8", "&'static str",
            "Box<dyn Fn()>", "Box<dyn Fn() + Send>", "Box<dyn Fn() + Send + Sync>", "Box<dyn Fn() + Sync>", "std::sync::MutexGuard<'static, u8>",
            "std::ptr::NonNull<u8>", "fn(std::rc::Rc<u8>)", "std::thread::Thread",
        ]));
    }
    let x = ty(r, depth - 1);
    let t = &x.text;
    let text = match r.below(23) {
        0 => format!("Box<{t}>"),
        1 => format!("Vec<{t}>"),
        2 => format!("Option<{t}>"),
        3 => format!("[{t}; 2]"),
        4 => {
            let y = ty(r, depth - 1);
            return Ty { text: format!("({t}, {})", y.text), parts: vec![x, y] };
        }
        5 => format!("std::rc::Rc<{t}>"),
        6 => format!("std::sync::Arc<{t}>"),
        7 => format!("std::cell::Cell<{t}>"),
        8 => format!("std::cell::RefCell<{t}>"),
        9 => format!("std::sync::Mutex<{t}>"),
        10 => format!("std::sync::RwLock<{t}>"),
        11 => format!("std::sync::MutexGuard<'static, {t}>"),
        12 => format!("&'static {t}"),
        13 => format!("&'static mut {t}"),
        14 => format!("*const {t}"),
        15 => format!("std::marker::PhantomData<{t}>"),
        16 => format!("std::sync::mpsc::Receiver<{t}>"),
        17 => format!("std::cell::UnsafeCell<{t}>"),
        18 => format!("std::cell::OnceCell<{t}>"),
        19 => format!("std::sync::OnceLock<{t}>"),
        20 => {
            let y = ty(r, depth - 1);
            return Ty { text: format!("raw_btree::Item<{t}, {}>", y.text), parts: vec![x, y] };
        }
        21 => format!("RawBTree<{t}>"),
        _ => format!("std::collections::BTreeMap<u8, {t}>"),
    };
    Ty { text, parts: vec![x] }
}

/// (name, type, standard counterpart, exactly)
const HANDLES: [(&str, &str, &str, bool); 13] = [
    ("tree", "RawBTree<@>", "@", true),
    ("consuming iterator", "raw_btree::IntoIter<@, BoxStorage>", "@", true),
    ("pair of trees", "(RawBTree<@>, Option<RawBTree<@>>)", "@", true),
    ("shared reference to a tree", "&'static RawBTree<@>", "&'static @", true),
    ("mutable reference to a tree", "&'static mut RawBTree<@>", "&'static mut @", true),
    ("iterator", "raw_btree::Iter<'static, @, BoxStorage>", "std::slice::Iter<'static, @>", false),
    ("mutable iterator", "raw_btree::IterMut<'static, @, BoxStorage>", "std::slice::IterMut<'static, @>", false),
    ("node identifier", "BoxPtr<@>", "&'static mut @", false),
    ("address", "raw_btree::Address<BoxPtr<@>>", "&'static mut @", false),
    ("node", "raw_btree::Node<@, BoxStorage>", "@", false),
    ("leaf", "raw_btree::node::LeafNode<@, BoxStorage>", "@", false),
    ("internal node", "raw_btree::node::InternalNode<@, BoxStorage>", "@", false),
    ("children", "raw_btree::node::Children<'static, @, BoxStorage>", "std::slice::Iter<'static, @>", false),
];

fn probes(types: &[Ty]) -> String {
    let mut s = String::from(
        "use raw_btree::{RawBTree, storage::{BoxStorage, BoxPtr}};\nuse std::marker::PhantomData;\n\
         trait No { const SEND: bool = false; const SYNC: bool = false; }\nimpl<T: ?Sized> No for T {}\n\
         struct A<T: ?Sized>(PhantomData<T>);\nimpl<T: ?Sized + Send> A<T> { const SEND: bool = true; }\n\
         struct B<T: ?Sized>(PhantomData<T>);\nimpl<T: ?Sized + Sync> B<T> { const SYNC: bool = true; }\n\
         fn b(x: bool) -> u8 { x as u8 + b'0' }\nfn main() {\n",
    );
    for t in types {
        s.push_str("    {\n");
        let mut args = vec![];
        for (_, h, a, _) in HANDLES {
            for x in [h, a] {
                let x = x.replace('@', &t.text);
                args.push(format!("b(<A<{x}>>::SEND), b(<B<{x}>>::SYNC)"));
            }
        }
        s.push_str(&format!("        let v: Vec<u8> = vec![{}];\n", args.join(",\n            ")));
        s.push_str("        println!(\"{}\", String::from_utf8(v).unwrap());\n    }\n");
    }
    s.push_str("}\n");
    s
}

fn verdicts(dir: &Path, name: &str, types: &[Ty]) -> Result<Vec<Option<(usize, String)>>, String> {
    let (errors, said) = compile(dir, name, &probes(types), true)?;
    if let Some((l, e)) = errors.first() {
        return Err(format!("the probe program is rejected at line {l}: {e}"));
    }
    let lines: Vec<&str> = said.lines().collect();
    if lines.len() != types.len() {
        return Err("the probe program said too little".into());
    }
    let mut out = vec![];
    for l in lines {
        let v: Vec<bool> = l.bytes().map(|b| b == b'1').collect();
        let mut bad = None;
        for (i, (name, _, std, exact)) in HANDLES.iter().enumerate() {
            for (j, tr) in ["Send", "Sync"].iter().enumerate() {
                let (h, a) = (v[4 * i + j], v[4 * i + 2 + j]);
                if h && !a && bad.is_none() {
                    bad = Some((i, format!("a {name} is {tr} though {} is not", std.replace('@', "its item type"))));
                }
                if !h && a && *exact && bad.is_none() {
                    bad = Some((i, format!("a {name} is not {tr} though {} is", std.replace('@', "its item type"))));
                }
            }
        }
        out.push(bad);
    }
    Ok(out)
}

fn c19(seed: u64, tier: Tier, dir: &Path, o: &mut Outcome) -> Result<(), String> {
    library(dir)?;
    let batches = if tier == Tier::Thorough { 400 } else { 40 };
    let per = 80;
    let mut seen = HashSet::new();
    let mut work: Vec<Vec<Ty>> = vec![];
    for b in 0..batches {
        let mut types = vec![];
        let mut i = 0;
        while types.len() < per && i < per * 20 {
            let mut r = Rng::for_case(seed, "C19 types", b as u64 * 100_000 + i as u64);
            i += 1;
            let depth = r.below(4);
            let t = ty(&mut r, depth);
            if seen.insert(t.text.clone()) {
                types.push(t);
            }
        }
        work.push(types);
    }
    let results: Vec<Result<Vec<Option<(usize, String)>>, String>> = parallel(&work, |i, types| verdicts(dir, &format!("probe{i}"), types));
    for (types, res) in work.iter().zip(results) {
        let res = res?;
        for (t, bad) in types.iter().zip(res) {
            o.evaluations += HANDLES.len() as u64 * 2;
            o.nontrivial += HANDLES.len() as u64 * 2;
            o.distinct += HANDLES.len() as u64 * 2;
            if o.samples.len() < 4 {
                o.samples.push(format!("item type {}: Send and Sync of {} handles", t.text, HANDLES.len()));
            }
            *o.counts.entry("item types".into()).or_insert(0) += 1;
            if let Some((h, m)) = bad {
                // the smallest part of the type that still shows it
                let (mut t, mut h, mut m) = (t.clone(), h, m);
                loop {
                    let parts = t.parts.clone();
                    let r = verdicts(dir, "shrink", &parts).unwrap_or_default();
                    match parts.into_iter().zip(r).find(|(_, b)| b.is_some()) {
                        Some((p, Some((ph, pm)))) => (t, h, m) = (p, ph, pm),
                        _ => break,
                    }
                }
                let what = format!("{m}; item type {}", t.text);
                let x = HANDLES[h].1.replace('@', &t.text);
                let text = format!(
                    "use raw_btree::{{RawBTree, storage::{{BoxStorage, BoxPtr}}}};\nfn send<T: Send>() {{}}\nfn sync<T: Sync>() {{}}\npub fn main() {{\n    // {what}\n    send::<{x}>();\n    sync::<{x}>();\n}}\n"
                );
                let path = replay("C19", &what, &text);
                o.violation = Some((what, path));
                return Ok(());
            }
        }
    }
    Ok(())
}

fn parallel<T: Sync, R: Send>(work: &[T], f: impl Fn(usize, &T) -> R + Sync) -> Vec<R> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: std::sync::Mutex<Vec<(usize, R)>> = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..crate::driver::nworkers() {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= work.len() {
                    break;
                }
                let r = f(i, &work[i]);
                out.lock().unwrap().push((i, r));
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

// ------------------------------------------------------------------ C23: borrows

/// (name, code evaluating to a borrow, does it need exclusive access)
/// `t` is the tree, `k: &K` a key, `id` a node identifier, `a` an address, `n` a number.
const ACCESS: [(&str, &str, bool); 41] = [
    ("get", "t.get(cmp, &k)", false),
    ("first", "t.first()", false),
    ("last", "t.last()", false),
    ("iter", "t.iter()", false),
    ("reference iteration", "(&t).into_iter()", false),
    ("copied iterator", "{ let i = t.iter(); let j = i; i.clone() }", false),
    ("item of iter", "t.iter().next()", false),
    ("last item of iter", "t.iter().next_back()", false),
    ("nth item of iter", "t.iter().nth(2)", false),
    ("collected items", "t.iter().collect::<Vec<_>>()", false),
    ("reversed iterator", "t.iter().rev()", false),
    ("mapped iterator", "t.iter().map(|x| x)", false),
    ("get_at", "unsafe { t.get_at(a) }", false),
    ("node", "unsafe { t.node(id) }", false),
    ("item of a node", "unsafe { t.node(id) }.item(0.into())", false),
    ("lookup in a node", "unsafe { t.node(id) }.get(cmp, &k)", false),
    ("children of a node", "unsafe { t.node(id) }.children()", false),
    ("children with separators", "unsafe { t.node(id) }.children_with_separators()", false),
    ("a child with separators", "unsafe { t.node(id) }.children_with_separators().next()", false),
    ("separators of a node", "unsafe { t.node(id) }.separators(n)", false),
    ("items of a leaf", "match unsafe { t.node(id) } { Node::Leaf(l) => Some(l.items()), _ => None }", false),
    ("iterator of a leaf", "match unsafe { t.node(id) } { Node::Leaf(l) => Some(l.iter()), _ => None }", false),
    ("item of a leaf", "match unsafe { t.node(id) } { Node::Leaf(l) => l.item(0.into()), _ => None }", false),
    ("branches of an internal node", "match unsafe { t.node(id) } { Node::Internal(i) => Some(i.branches()), _ => None }", false),
    ("item of an internal node", "match unsafe { t.node(id) } { Node::Internal(i) => i.item(0.into()), _ => None }", false),
    ("separators of an internal node", "match unsafe { t.node(id) } { Node::Internal(i) => Some(i.separators(n)), _ => None }", false),
    ("get_mut", "t.get_mut(cmp, &k)", true),
    ("first_mut", "t.first_mut()", true),
    ("last_mut", "t.last_mut()", true),
    ("iter_mut", "t.iter_mut()", true),
    ("mutable reference iteration", "(&mut t).into_iter()", true),
    ("item of iter_mut", "t.iter_mut().next()", true),
    ("last item of iter_mut", "t.iter_mut().next_back()", true),
    ("collected mutable items", "t.iter_mut().collect::<Vec<_>>()", true),
    ("get_mut_at", "unsafe { t.get_mut_at(a) }", true),
    ("node_mut", "unsafe { t.node_mut(id) }", true),
    ("mutable item of a node", "unsafe { t.node_mut(id) }.item_mut(0.into())", true),
    ("mutable lookup in a node", "unsafe { t.node_mut(id) }.get_mut(cmp, &k)", true),
    ("mutable item of a leaf", "match unsafe { t.node_mut(id) } { Node::Leaf(l) => l.item_mut(0.into()), _ => None }", true),
    ("mutable lookup in a leaf", "match unsafe { t.node_mut(id) } { Node::Leaf(l) => l.get_mut(cmp, &k), _ => None }", true),
    ("mutable item of an internal node", "match unsafe { t.node_mut(id) } { Node::Internal(i) => i.item_mut(0.into()), _ => None }", true),
];

/// (name, code, conflicts with shared borrows too)
const CONFLICT: [(&str, &str, bool); 47] = [
    ("insert", "t.insert(cmp, x);", true),
    ("remove", "t.remove(cmp, &k);", true),
    ("get_mut", "t.get_mut(cmp, &k);", true),
    ("first_mut", "t.first_mut();", true),
    ("last_mut", "t.last_mut();", true),
    ("iter_mut", "t.iter_mut().count();", true),
    ("a mutable loop", "for y in &mut t { touch(y) }", true),
    ("clear", "t.clear();", true),
    ("forget", "t.forget();", true),
    ("insert_at", "unsafe { t.insert_at(Some(a), x) };", true),
    ("insert_exactly_at", "unsafe { t.insert_exactly_at(Some(a), x, None) };", true),
    ("remove_at", "unsafe { t.remove_at(a) };", true),
    ("replace_at", "unsafe { t.replace_at(a, x) };", true),
    ("get_mut_at", "unsafe { t.get_mut_at(a) };", true),
    ("node_mut", "unsafe { t.node_mut(id) };", true),
    ("visit_from_leaves_mut", "t.visit_from_leaves_mut(|_, _| ());", true),
    ("drop", "drop(t);", true),
    ("a move", "let u = t;", true),
    ("a move into a closure", "let fm = move || t.len(); fm();", true),
    ("into_iter", "let u = t.into_iter();", true),
    ("a consuming loop", "for y in t { touch(y) }", true),
    ("swap", "let mut o = RawBTree::new(); std::mem::swap(&mut t, &mut o);", true),
    ("take", "let o = std::mem::take(&mut t);", true),
    ("assignment", "t = RawBTree::new();", true),
    ("a mutable reborrow", "touch(&mut t);", true),
    ("item_mut of a node", "unsafe { t.node_mut(id) }.item_mut(0.into());", true),
    ("replace in a node", "unsafe { t.node_mut(id) }.replace(0.into(), x);", true),
    ("pop from a node", "let _ = unsafe { t.node_mut(id) }.pop_left();", true),
    ("get", "t.get(cmp, &k);", false),
    ("first", "t.first();", false),
    ("last", "t.last();", false),
    ("len", "t.len();", false),
    ("is_empty", "t.is_empty();", false),
    ("iter", "t.iter().count();", false),
    ("a loop", "for y in &t { touch(y) }", false),
    ("address_of", "t.address_of(cmp, &k).is_ok();", false),
    ("clone", "let u = t.clone();", false),
    ("root", "t.root();", false),
    ("get_at", "unsafe { t.get_at(a) };", false),
    ("next_item_address", "unsafe { t.next_item_address(a) };", false),
    ("previous_item_address", "unsafe { t.previous_item_address(a) };", false),
    ("first_item_address", "t.first_item_address();", false),
    ("node", "unsafe { t.node(id) };", false),
    ("visit_from_leaves", "t.visit_from_leaves(|_| ());", false),
    ("a shared reference", "touch(&t);", false),
    ("normalize", "unsafe { t.normalize(a) };", false),
    ("leaf_address", "unsafe { t.leaf_address(a) };", false),
];

/// How the borrow is kept and used late.
const KEEP: [(&str, &str, &str); 7] = [
    ("a variable", "let mut r = {};", "touch(r);"),
    ("a variable used by reference", "let mut r = {};", "touch(&r);"),
    ("a variable used by mutable reference", "let mut r = {};", "touch(&mut r);"),
    ("a vector", "let mut v = vec![]; v.push({});", "touch(v.pop());"),
    ("a tuple", "let mut p = (1, {});", "touch(p.1);"),
    ("a closure", "let mut r = {}; let f = move || { touch(&r); };", "f();"),
    ("an option", "let mut q = None; q = Some({});", "touch(q.take());"),
];

struct Item {
    head: &'static str,
    key: &'static str,
}
const TYPES: [Item; 6] = [
    Item { head: "(mut t: RawBTree<u32>, k: u32, x: u32, id: BoxPtr<u32>, a: Address<BoxPtr<u32>>, n: usize)", key: "u32" },
    Item { head: "(mut t: RawBTree<String>, k: String, x: String, id: BoxPtr<String>, a: Address<BoxPtr<String>>, n: usize)", key: "String" },
    Item { head: "(mut t: RawBTree<Box<u64>>, k: Box<u64>, x: Box<u64>, id: BoxPtr<Box<u64>>, a: Address<BoxPtr<Box<u64>>>, n: usize)", key: "Box<u64>" },
    Item {
        head: "<T: Ord + Clone + 'static, S: Storage<T>>(mut t: RawBTree<T, S>, k: T, x: T, id: S::Node, a: Address<S::Node>, n: usize)",
        key: "T",
    },
    Item { head: "<T: Ord + Clone>(mut t: RawBTree<T>, k: T, x: T, id: BoxPtr<T>, a: Address<BoxPtr<T>>, n: usize)", key: "T" },
    Item {
        head: "<'x>(mut t: RawBTree<&'x str>, k: &'x str, x: &'x str, id: BoxPtr<&'x str>, a: Address<BoxPtr<&'x str>>, n: usize)",
        key: "&'x str",
    },
];

const PRELUDE: &str = "use raw_btree::{Address, Node, RawBTree, Storage, storage::{BoxPtr, BoxStorage}};\n\
    fn cmp<T: Ord>(a: &T, b: &T) -> std::cmp::Ordering { a.cmp(b) }\nfn touch<T>(_: T) {}\n";

/// Whole programs that must be rejected, with the accepted program closest to them.
const FIXED: [(&str, &str, &str); 22] = [
    ("an item outlives its tree", "fn {}() { let r; { let mut t: RawBTree<u32> = RawBTree::new(); r = t.first(); touch(&t); } touch(r); }",
        "fn {}() { let r; { let mut t: RawBTree<u32> = RawBTree::new(); r = t.first().copied(); touch(&t); } touch(r); }"),
    ("an iterator outlives its tree", "fn {}() { let r; { let t: RawBTree<u32> = RawBTree::new(); r = t.iter(); } touch(r); }",
        "fn {}() { let r; { let t: RawBTree<u32> = RawBTree::new(); r = t.into_iter(); } touch(r); }"),
    ("a mutable iterator outlives its tree", "fn {}() { let r; { let mut t: RawBTree<u32> = RawBTree::new(); r = t.iter_mut(); } touch(r); }",
        "fn {}() { let mut t: RawBTree<u32> = RawBTree::new(); let r; { r = t.iter_mut(); } touch(r); }"),
    ("an item is returned from its owner", "fn {}<'a>(t: RawBTree<String>) -> Option<&'a String> { t.first() }",
        "fn {}<'a>(t: &'a RawBTree<String>) -> Option<&'a String> { t.first() }"),
    ("a node is returned from its owner", "fn {}<'a, T, S: Storage<T>>(t: RawBTree<T, S>, id: S::Node) -> &'a Node<T, S> { unsafe { t.node(id) } }",
        "fn {}<'a, T, S: Storage<T>>(t: &'a RawBTree<T, S>, id: S::Node) -> &'a Node<T, S> { unsafe { t.node(id) } }"),
    ("an item is made static", "fn {}(t: &RawBTree<String>) -> Option<&'static String> { t.last() }",
        "fn {}(t: &'static RawBTree<String>) -> Option<&'static String> { t.last() }"),
    ("an iterator is made static", "fn {}<'a>(t: &'a RawBTree<u8>) -> raw_btree::Iter<'static, u8, BoxStorage> { t.iter() }",
        "fn {}<'a>(t: &'a RawBTree<u8>) -> raw_btree::Iter<'a, u8, BoxStorage> { t.iter() }"),
    ("the item of an iterator is made static", "fn {}<'a>(mut t: raw_btree::Iter<'a, u8, BoxStorage>) -> Option<&'static u8> { t.next() }",
        "fn {}<'a>(mut t: raw_btree::Iter<'a, u8, BoxStorage>) -> Option<&'a u8> { t.next() }"),
    ("the mutable item of an iterator is made static", "fn {}<'a>(mut t: raw_btree::IterMut<'a, u8, BoxStorage>) -> Option<&'static mut u8> { t.next_back() }",
        "fn {}<'a>(mut t: raw_btree::IterMut<'a, u8, BoxStorage>) -> Option<&'a mut u8> { t.next_back() }"),
    ("a mutable item from a shared tree", "fn {}(t: &RawBTree<u8>) { t.first_mut(); }", "fn {}(t: &mut RawBTree<u8>) { t.first_mut(); }"),
    ("get_mut on a shared tree", "fn {}(t: &RawBTree<u8>) { t.get_mut(cmp, &3); }", "fn {}(t: &mut RawBTree<u8>) { t.get_mut(cmp, &3); }"),
    ("iter_mut on a shared tree", "fn {}(t: &RawBTree<u8>) { t.iter_mut(); }", "fn {}(t: &mut RawBTree<u8>) { t.iter_mut(); }"),
    ("get_mut_at on a shared tree", "fn {}<T, S: Storage<T>>(t: &RawBTree<T, S>, a: Address<S::Node>) { unsafe { t.get_mut_at(a) }; }",
        "fn {}<T, S: Storage<T>>(t: &mut RawBTree<T, S>, a: Address<S::Node>) { unsafe { t.get_mut_at(a) }; }"),
    ("node_mut on a shared tree", "fn {}<T, S: Storage<T>>(t: &RawBTree<T, S>, a: S::Node) { unsafe { t.node_mut(a) }; }",
        "fn {}<T, S: Storage<T>>(t: &mut RawBTree<T, S>, a: S::Node) { unsafe { t.node_mut(a) }; }"),
    ("insert into a shared tree", "fn {}(t: &RawBTree<u8>) { t.insert(cmp, 3); }", "fn {}(t: &mut RawBTree<u8>) { t.insert(cmp, 3); }"),
    ("writing through get", "fn {}(t: &mut RawBTree<u8>) { if let Some(x) = t.get(cmp, &3) { *x = 4; } }",
        "fn {}(t: &mut RawBTree<u8>) { if let Some(x) = t.get_mut(cmp, &3) { *x = 4; } }"),
    ("writing through iter", "fn {}(t: &mut RawBTree<u8>) { for x in t.iter() { *x = 4; } }",
        "fn {}(t: &mut RawBTree<u8>) { for x in t.iter_mut() { *x = 4; } }"),
    ("shortening what a mutable iterator writes", "fn {}<'a, 's>(t: raw_btree::IterMut<'a, &'static str, BoxStorage>, _: &'s str) -> raw_btree::IterMut<'a, &'s str, BoxStorage> { t }",
        "fn {}<'a, 's>(t: raw_btree::IterMut<'a, &'s str, BoxStorage>, _: &'s str) -> raw_btree::IterMut<'a, &'s str, BoxStorage> { t }"),
    ("lengthening what a tree holds", "fn {}<'s>(t: RawBTree<&'s str>) -> RawBTree<&'static str> { t }",
        "fn {}<'s>(t: RawBTree<&'s str>) -> RawBTree<&'s str> { t }"),
    ("lengthening what an iterator yields", "fn {}<'s>(t: raw_btree::IntoIter<&'s str, BoxStorage>) -> raw_btree::IntoIter<&'static str, BoxStorage> { t }",
        "fn {}<'s>(t: raw_btree::IntoIter<&'s str, BoxStorage>) -> raw_btree::IntoIter<&'s str, BoxStorage> { t }"),
    ("an item's own borrow ends", "fn {}() { let mut t: RawBTree<&String> = RawBTree::new(); let s = String::new(); t.insert(cmp, &s); drop(s); touch(t.first()); }",
        "fn {}() { let s = String::new(); let mut t: RawBTree<&String> = RawBTree::new(); t.insert(cmp, &s); touch(t.first()); }"),
    ("use after consumption", "fn {}(t: RawBTree<u8>) { let i = t.into_iter(); touch(t.len()); touch(i); }",
        "fn {}(t: RawBTree<u8>) { touch(t.len()); let i = t.into_iter(); touch(i); }"),
];

/// Borrowck verdicts: the only errors a generated program may have.
const VERDICTS: [&str; 19] = [
    "E0382", "E0499", "E0501", "E0502", "E0503", "E0505", "E0506", "E0507", "E0510", "E0515", "E0594", "E0596", "E0597", "E0621", "E0700",
    "E0712", "E0713", "E0716", "E0521",
];

#[derive(Clone)]
struct Pair {
    what: String,
    bad: String,
    good: String,
}

fn pair(acc: usize, con: usize, keep: usize, item: usize) -> Pair {
    let (an, a, _) = ACCESS[acc];
    let (cn, c, _) = CONFLICT[con];
    let (kn, k, u) = KEEP[keep];
    let t = &TYPES[item];
    let k = k.replace("{}", a);
    // both programs only differ in the order of the last two statements
    Pair {
        what: format!("{an} of a tree of {} kept in {kn}, then {cn}, then used", t.key),
        bad: format!("fn {{}}{} {{ {k} {c} {u} }}", t.head),
        good: format!("fn {{}}{} {{ {k} {u} {c} }}", t.head),
    }
}

/// (name, type, type it may be duplicated with, trait): nothing exclusive or owning can be duplicated.
const DUPLICATES: [(&str, &str, &str, &str); 14] = [
    ("mutable iterator", "raw_btree::IterMut<'static, @, BoxStorage>", "&'static mut @", "Clone"),
    ("mutable iterator", "raw_btree::IterMut<'static, @, BoxStorage>", "&'static mut @", "Copy"),
    ("tree", "RawBTree<@>", "Box<@>", "Clone"),
    ("tree", "RawBTree<@>", "Box<@>", "Copy"),
    ("consuming iterator", "raw_btree::IntoIter<@, BoxStorage>", "Box<@>", "Clone"),
    ("consuming iterator", "raw_btree::IntoIter<@, BoxStorage>", "Box<@>", "Copy"),
    ("node", "raw_btree::Node<@, BoxStorage>", "Box<@>", "Clone"),
    ("node", "raw_btree::Node<@, BoxStorage>", "Box<@>", "Copy"),
    ("leaf", "raw_btree::node::LeafNode<@, BoxStorage>", "Box<@>", "Clone"),
    ("leaf", "raw_btree::node::LeafNode<@, BoxStorage>", "Box<@>", "Copy"),
    ("internal node", "raw_btree::node::InternalNode<@, BoxStorage>", "Box<@>", "Clone"),
    ("internal node", "raw_btree::node::InternalNode<@, BoxStorage>", "Box<@>", "Copy"),
    ("mutable reference to a tree", "&'static mut RawBTree<@>", "&'static mut @", "Clone"),
    ("mutable reference to a node", "&'static mut raw_btree::Node<@, BoxStorage>", "&'static mut @", "Copy"),
];

fn duplicates(seed: u64, dir: &Path, o: &mut Outcome) -> Result<(), String> {
    let mut types: Vec<String> = vec![];
    let mut i = 0;
    while types.len() < 60 {
        let mut r = Rng::for_case(seed, "C23 types", i);
        i += 1;
        let depth = r.below(3);
        let t = ty(&mut r, depth).text;
        if !types.contains(&t) {
            types.push(t);
        }
    }
    types[0] = "u8".into();
    let mut s = String::from(
        "use raw_btree::{RawBTree, storage::BoxStorage};\nuse std::marker::PhantomData;\n\
         trait No { const CLONE: bool = false; const COPY: bool = false; }\nimpl<T: ?Sized> No for T {}\n\
         struct A<T: ?Sized>(PhantomData<T>);\nimpl<T: Clone> A<T> { const CLONE: bool = true; }\n\
         struct B<T: ?Sized>(PhantomData<T>);\nimpl<T: Copy> B<T> { const COPY: bool = true; }\n\
         fn b(x: bool) -> u8 { x as u8 + b'0' }\nfn main() {\n",
    );
    for t in &types {
        let ask = |h: &str, tr: &str| {
            let h = h.replace('@', t);
            if tr == "Clone" { format!("b(<A<{h}>>::CLONE)") } else { format!("b(<B<{h}>>::COPY)") }
        };
        let v: Vec<String> = DUPLICATES.iter().map(|(_, h, a, tr)| format!("{}, {}", ask(h, tr), ask(a, tr))).collect();
        s.push_str(&format!("    println!(\"{{}}\", String::from_utf8(vec![{}]).unwrap());\n", v.join(", ")));
    }
    s.push_str("}\n");
    let (errors, said) = compile(dir, "duplicates", &s, true)?;
    if let Some((l, e)) = errors.first() {
        return Err(format!("the probe program is rejected at line {l}: {e}"));
    }
    for (t, l) in types.iter().zip(said.lines()) {
        let v: Vec<bool> = l.bytes().map(|b| b == b'1').collect();
        for (i, (name, h, a, tr)) in DUPLICATES.iter().enumerate() {
            o.evaluations += 1;
            o.nontrivial += 1;
            o.distinct += 1;
            *o.counts.entry("probes for duplication".into()).or_insert(0) += 1;
            if v[2 * i] && !v[2 * i + 1] && o.violation.is_none() {
                let what = format!("the compiler accepts duplicating a {name} of {t}: it is {tr}, though {} is not", a.replace('@', t));
                let text = format!(
                    "use raw_btree::{{RawBTree, storage::BoxStorage}};\nfn duplicated<T: {tr}>() {{}}\npub fn main() {{\n    // {what}\n    duplicated::<{}>();\n}}\n",
                    h.replace('@', t)
                );
                let path = replay("C23", &what, &text);
                o.violation = Some((what, path));
            }
        }
    }
    Ok(())
}

fn c23(seed: u64, tier: Tier, dir: &Path, o: &mut Outcome) -> Result<(), String> {
    library(dir)?;
    duplicates(seed, dir, o)?;
    let mut pairs: Vec<Pair> = FIXED
        .iter()
        .map(|(w, b, g)| Pair { what: w.to_string(), bad: b.to_string(), good: g.to_string() })
        .collect();
    // every accessor against every conflicting use, for every way of keeping the borrow and every item type
    let _ = (seed, tier);
    for (ai, a) in ACCESS.iter().enumerate() {
        for (ci, c) in CONFLICT.iter().enumerate() {
            if !a.2 && !c.2 {
                continue;
            }
            for j in 0..KEEP.len() * TYPES.len() {
                pairs.push(pair(ai, ci, j % KEEP.len(), j / KEEP.len()));
            }
        }
    }
    let work: Vec<&[Pair]> = pairs.chunks(400).collect();
    let results = parallel(&work, |i, ps| judge(dir, &format!("{i}"), ps));
    let mut seen = HashSet::new();
    for (ps, res) in work.iter().zip(results) {
        let (bad, good) = res?;
        for (i, p) in ps.iter().enumerate() {
            o.evaluations += 2;
            o.nontrivial += 2;
            if seen.insert(p.bad.clone()) {
                o.distinct += 2;
            }
            for e in &bad[i] {
                *o.counts.entry(format!("rejected with {e}")).or_insert(0) += 1;
            }
            if o.samples.len() < 6 && (i % 150 == 3) {
                o.samples.push(format!("{}: {}", p.what, p.bad));
            }
            if o.violation.is_some() {
                continue;
            }
            let verdict = if bad[i].is_empty() {
                Some(("the compiler accepts", &p.bad))
            } else if !good[i].is_empty() {
                Some(("the compiler rejects, without the late use,", &p.good))
            } else {
                None
            };
            if let Some((v, text)) = verdict {
                let what = format!("{v} {}", p.what);
                let path = replay("C23", &what, &format!("{PRELUDE}{}\n", text.replace("{}", "p")));
                o.violation = Some((what, path));
            }
        }
    }
    Ok(())
}

type Codes = Vec<Vec<String>>;
fn judge(dir: &Path, tag: &str, ps: &[Pair]) -> Result<(Codes, Codes), String> {
    let mut out = vec![];
    for (kind, good) in [("bad", false), ("good", true)] {
        let mut text = PRELUDE.to_string();
        let first = text.lines().count() + 1;
        for (i, p) in ps.iter().enumerate() {
            text.push_str(&if good { &p.good } else { &p.bad }.replacen("{}", &format!("p{i}"), 1));
            text.push('\n');
        }
        let (errors, _) = compile(dir, &format!("{kind}{tag}"), &text, false)?;
        let mut codes = vec![vec![]; ps.len()];
        for (line, e) in errors {
            let code = e.split(['[', ']']).nth(1).unwrap_or("").to_string();
            let known = VERDICTS.contains(&code.as_str()) || e.contains("lifetime may not live long enough");
            let at = line.checked_sub(first).filter(|i| *i < ps.len());
            match (known, at) {
                (true, Some(i)) => codes[i].push(if code.is_empty() { "lifetime error".into() } else { code }),
                (false, None) if e.contains("aborting") => (),
                (_, at) => {
                    return Err(format!("unexpected error in a generated program: {e}; {}", at.map(|i| ps[i].what.as_str()).unwrap_or("")))
                }
            }
        }
        out.push(codes);
    }
    let good = out.pop().unwrap();
    let bad = out.pop().unwrap();
    Ok((bad, good))
}
