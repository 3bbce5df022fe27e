//! C19, the schedules half: trees on the default storage used from several threads. A case is a history cut in segments;
//! segments that edit run on threads of their own one after the other, segments that read run on several threads at once.
use super::*;
use crate::gen::ensure;
use lean::L;
use raw_btree::storage::BoxStorage;
use raw_btree::RawBTree;

const EDITS: u32 = 5;
const READS: u32 = 7;
const NAMES: [&str; (EDITS + READS) as usize] =
    ["insert", "remove", "run", "remove_run", "into_iter and back", "get", "first/last", "iterate", "iterate backwards", "both ends", "walk", "clone and edit the clone"];
/// starts a segment: a = 0 edits, otherwise the number of reading threads
const CUT: u32 = 100;

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: crate::programs::C19_RULE,
        phases: |t| {
            vec![
                ph("threads on a tree", Exe::Checked, 0, n(t, 6000)),
                ph("threads on a tree, shipped configuration", Exe::Ship, 0, n(t, 6000)),
                ph("threads on a tree, Miri race detection", Exe::Miri, 0, n(t, 96)),
            ]
        },
        enumerate: no_enum,
        gen: |r, phase, _| generate(r, phase == 2),
        run: |c, obs| match c.p(0) % 2 {
            0 => go::<u64>(c, obs),
            _ => go::<String>(c, obs),
        },
        describe,
    }
}

fn generate(r: &mut Rng, small: bool) -> Case {
    let univ = if small { r.pick(&[30, 60]) } else { r.pick(&[10, 60, 300, 2000]) };
    let mut c = Case { params: vec![r.below(2), univ], recs: vec![] };
    let len = if small { 3 } else { 10 };
    for s in 0..r.range(2, if small { 4 } else { 8 }) {
        let readers = if s % 2 == 0 { 0 } else { r.range(2, if small { 3 } else { 4 }) };
        c.recs.push(rec(CUT, readers, 0));
        for i in 0..r.range(2, len) {
            let k = match readers {
                0 if i == 0 => 2,
                0 => r.weighted(&[4, 3, 3, 2, 1]),
                _ => EDITS + r.weighted(&[4, 1, 2, 2, 2, 2, if small { 1 } else { 2 }]),
            };
            c.recs.push(rec(k, r.u32() >> 8, r.u32() >> 8));
        }
    }
    c
}

fn describe(c: &Case) -> String {
    let mut s = format!("{} items out of {}:", if c.p(0) % 2 == 0 { "u64" } else { "String" }, c.p(1));
    for r in &c.recs {
        match r.k {
            CUT if r.a == 0 => s.push_str("; one thread:"),
            CUT => s.push_str(&format!("; {} threads:", r.a)),
            k => s.push_str(&format!(" {}({},{})", NAMES[(k % (EDITS + READS)) as usize], r.a, r.b)),
        }
    }
    s
}

fn cmp<X: L>(a: &X, k: &u32) -> std::cmp::Ordering {
    a.key().cmp(k)
}
fn cmp2<X: L>(a: &X, b: &X) -> std::cmp::Ordering {
    a.key().cmp(&b.key())
}

/// Whether the tree may cross threads is judged elsewhere, by the compiler.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn take(self) -> T {
        self.0
    }
}

fn go<X: L + Send + Sync>(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let univ = c.p(1).clamp(1, 5000);
    let mut t: RawBTree<X, BoxStorage> = RawBTree::new();
    let mut model: Vec<u32> = vec![];
    let mut i = 0;
    while i < c.recs.len() {
        let cut = c.recs[i];
        let start = i + (cut.k == CUT) as usize;
        let mut end = start;
        while end < c.recs.len() && c.recs[end].k != CUT {
            end += 1;
        }
        let recs = &c.recs[start..end];
        i = end;
        if cut.k != CUT || cut.a == 0 {
            // another thread continues the history, and hands the tree back
            let job = Force((std::mem::take(&mut t), std::mem::take(&mut model)));
            let r = std::thread::scope(|s| {
                s.spawn(move || {
                    let (mut t, mut model) = job.take();
                    edit(&mut t, &mut model, univ, recs).map(|()| Force((t, model)))
                })
                .join()
            });
            (t, model) = r.map_err(|_| format!("PANIC on another thread: {}", crate::driver::last_panic()))??.take();
            obs.add("segments that edit on a thread of their own", 1);
        } else {
            let threads = cut.a.min(8);
            let want = expected(&model, univ, recs);
            let shared = Force(&t);
            let gate = std::sync::Barrier::new(threads as usize);
            let got: Vec<_> = std::thread::scope(|s| {
                let kids: Vec<_> = (0..threads)
                    .map(|w| {
                        let (shared, gate) = (&shared, &gate);
                        s.spawn(move || {
                            gate.wait();
                            // not all in step
                            let n = recs.len().max(1);
                            let at = w as usize * n / threads as usize;
                            let mut out = vec![0; recs.len()];
                            for j in (0..recs.len()).map(|j| (j + at) % n) {
                                out[j] = read(*shared.get(), univ, &recs[j]);
                            }
                            out
                        })
                    })
                    .collect();
                kids.into_iter().map(|k| k.join()).collect()
            });
            for (w, g) in got.into_iter().enumerate() {
                let g = g.map_err(|_| format!("PANIC on another thread: {}", crate::driver::last_panic()))?;
                if let Some(j) = (0..recs.len()).find(|j| g[*j] != want[*j]) {
                    return Err(format!(
                        "thread {w} of {threads} reads something else in {}({},{})",
                        NAMES[(recs[j].k % (EDITS + READS)) as usize], recs[j].a, recs[j].b
                    ));
                }
            }
            obs.nontrivial |= model.len() > 8;
            obs.add("reads by several threads at once", threads as u64 * recs.len() as u64);
        }
        let seen: Vec<u32> = t.iter().map(L::key).collect();
        ensure!(seen == model, "the tree holds {seen:?} after the threads ended, should hold {model:?}");
        ensure!(t.len() == model.len(), "len() is {} after the threads ended, should be {}", t.len(), model.len());
    }
    let t = Force(t);
    std::thread::scope(|s| s.spawn(move || drop(t.take())).join()).map_err(|_| "PANIC while another thread drops the tree".to_string())
}

fn run_keys(r: &Rec, univ: u32) -> impl Iterator<Item = u32> {
    let (a, b) = (r.a, r.b);
    (0..b % 24).map(move |i| if b >> 8 & 1 == 0 { (a % univ + i) % univ } else { a.wrapping_add(i).wrapping_mul(7919) % univ })
}

fn edit<X: L>(t: &mut RawBTree<X, BoxStorage>, model: &mut Vec<u32>, univ: u32, recs: &[Rec]) -> Result<(), String> {
    for r in recs {
        let k = r.a % univ;
        match r.k % EDITS {
            0 => insert(t, model, k)?,
            1 => remove(t, model, k)?,
            2 => {
                for k in run_keys(r, univ) {
                    insert(t, model, k)?
                }
            }
            3 => {
                for k in run_keys(r, univ) {
                    remove(t, model, k)?
                }
            }
            _ => {
                let mut it = std::mem::take(t).into_iter();
                let head: Vec<X> = it.by_ref().take(model.len() / 2).collect();
                for x in it.rev().chain(head) {
                    ensure!(t.insert(cmp2, x).is_none(), "an item of a consumed tree was there twice");
                }
            }
        }
    }
    Ok(())
}
fn insert<X: L>(t: &mut RawBTree<X, BoxStorage>, model: &mut Vec<u32>, k: u32) -> Result<(), String> {
    let old = t.insert(cmp2, X::make(k)).map(|x| x.key());
    let want = match model.binary_search(&k) {
        Ok(_) => Some(k),
        Err(i) => {
            model.insert(i, k);
            None
        }
    };
    ensure!(old == want, "insert of {k} on another thread gives {old:?}");
    Ok(())
}
fn remove<X: L>(t: &mut RawBTree<X, BoxStorage>, model: &mut Vec<u32>, k: u32) -> Result<(), String> {
    let old = t.remove(cmp, &k).map(|x| x.key());
    let want = model.binary_search(&k).ok().map(|i| model.remove(i));
    ensure!(old == want, "remove of {k} on another thread gives {old:?}");
    Ok(())
}

/// What a reader sees, folded into a number.
fn fold(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23)
}
fn opt(x: Option<u32>) -> u64 {
    x.map_or(u64::MAX, |x| x as u64)
}

fn read<X: L>(t: &RawBTree<X, BoxStorage>, univ: u32, r: &Rec) -> u64 {
    let k = r.a % univ;
    match (r.k % (EDITS + READS)).saturating_sub(EDITS) {
        0 => fold(opt(t.get(cmp, &k).map(|x| x.key())), t.address_of(cmp, &k).is_ok() as u64),
        1 => fold(fold(opt(t.first().map(|x| x.key())), opt(t.last().map(|x| x.key()))), fold(t.len() as u64, t.is_empty() as u64)),
        2 => t.iter().fold(0, |h, x| fold(h, x.key() as u64)),
        3 => t.iter().rev().fold(0, |h, x| fold(h, x.key() as u64)),
        4 => {
            let mut it = t.iter();
            let mut h = 0;
            for i in 0..t.len() + 1 {
                let x = if r.b >> (i % 16) & 1 == 0 { it.next() } else { it.next_back() };
                h = fold(h, opt(x.map(|x| x.key())));
            }
            h
        }
        5 => {
            // by addresses, from the first item or from the key
            let mut a = match (r.b % 2, t.address_of(cmp, &k)) {
                (0, _) => t.first_item_address(),
                (_, Ok(a)) => Some(a),
                (_, Err(a)) => a.and_then(|a| unsafe { t.normalize(a) }),
            };
            let mut h = 0;
            while let Some(x) = a {
                h = fold(h, opt(unsafe { t.get_at(x) }.map(|x| x.key())));
                a = unsafe { t.next_item_address(x) };
            }
            h
        }
        _ => {
            let mut u = t.clone();
            u.remove(cmp, &k);
            u.insert(cmp2, X::make(univ));
            u.iter().fold(u.len() as u64, |h, x| fold(h, x.key() as u64))
        }
    }
}

fn expected(model: &[u32], univ: u32, recs: &[Rec]) -> Vec<u64> {
    let all = |it: &mut dyn Iterator<Item = &u32>| it.fold(0, |h, x| fold(h, *x as u64));
    recs.iter()
        .map(|r| {
            let k = r.a % univ;
            let at = model.binary_search(&k);
            match (r.k % (EDITS + READS)).saturating_sub(EDITS) {
                0 => fold(opt(at.ok().map(|_| k)), at.is_ok() as u64),
                1 => fold(
                    fold(opt(model.first().copied()), opt(model.last().copied())),
                    fold(model.len() as u64, model.is_empty() as u64),
                ),
                2 => all(&mut model.iter()),
                3 => all(&mut model.iter().rev()),
                4 => {
                    let mut it = model.iter();
                    let mut h = 0;
                    for i in 0..model.len() + 1 {
                        let x = if r.b >> (i % 16) & 1 == 0 { it.next() } else { it.next_back() };
                        h = fold(h, opt(x.copied()));
                    }
                    h
                }
                5 => {
                    let from = if r.b % 2 == 0 { 0 } else { at.unwrap_or_else(|i| i) };
                    all(&mut model[from..].iter())
                }
                _ => {
                    let mut v: Vec<u32> = model.iter().copied().filter(|x| *x != k).collect();
                    v.push(univ);
                    v.iter().fold(v.len() as u64, |h, x| fold(h, *x as u64))
                }
            }
        })
        .collect()
}
