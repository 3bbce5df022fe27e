//! C06: the ownership ledger over histories with every way of ending a tree's life, and a live-allocation balance.
use super::*;
use crate::gen::{self, ensure, World, NKINDS, OWN};
use crate::ledger::{self, It};
use crate::store::Store;
use std::sync::OnceLock;

/// How the tree ends: params[5]; params[6], params[7]: items taken from the front / back first.
const END: usize = gen::P_EXTRA;
const ENDS: u32 = 12;
/// Clone in the middle of the history, continue on one of the two.
const CLONE: u32 = OWN;
/// Consume partly in the middle of the history, and go on with a new tree.
const CONSUME: u32 = OWN + 1;

fn enumerated() -> &'static Vec<Case> {
    static E: OnceLock<Vec<Case>> = OnceLock::new();
    E.get_or_init(|| {
        let mut v = vec![];
        for c in shapes_with(2, &mut |_, items, out| {
            for i in [0, 1, items / 2, items.saturating_sub(1), items] {
                out.push(rec(OWN + 90, i as u32, 0));
            }
        }) {
            let front = c.recs.last().unwrap().a;
            for end in 0..ENDS {
                let mut c = c.clone();
                c.params[0] = end + front;
                c.params[3] = front & 1;
                c.params.extend([end, front, front / 2]);
                v.push(c);
            }
        }
        v
    })
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "the life of the tree ended with at least one item inside, after at least one split and one removal",
        phases: |t| {
            vec![
                ph("every ending of every small shape; histories", Exe::Checked, enumerated().len() as u64, n(t, 60_000)),
                ph("histories, shipped configuration", Exe::Ship, 0, n(t, 40_000)),
                ph("other item types", Exe::Checked, 0, n(t, 60_000)),
            ]
        },
        enumerate: |i, _, _| enumerated()[i as usize].clone(),
        gen: |r, phase, _| {
            if phase == 2 {
                let mut c = super::c22::generate(r);
                c.params.resize(15, 0);
                c.params.push(77);
                return c;
            }
            let mut c = gen::history(r, &gen::HistCfg { addressed: true, ..Default::default() });
            for _ in 0..r.below(3) {
                let at = r.below(c.recs.len() as u32 + 1) as usize;
                c.recs.insert(at, rec(OWN + r.below(2), r.below(4), r.below(40)));
            }
            c.params.push(r.below(ENDS));
            c.params.push(if r.chance(1, 3) { 0 } else { r.below(120) });
            c.params.push(if r.chance(1, 3) { 0 } else { r.below(120) });
            c
        },
        run,
        describe: |c| if c.p(15) == 77 { super::c22::describe(c) } else { gen::describe(c) },
    }
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    if c.p(15) == 77 {
        return super::c22::balance(c, obs);
    }
    on_store!(c, obs, one)
}

/// Runs `f` and compares the live allocations before and after; `allowed` blocks may stay. Re-runs before reporting, so
/// that one-time initialisation anywhere in the process is not counted.
pub fn balanced(mut f: impl FnMut() -> Result<isize, String>) -> Result<(), String> {
    let mut last = None;
    for _ in 0..3 {
        let blocks = ledger::live_blocks();
        let bytes = ledger::live_bytes();
        let allowed = f()?;
        let (db, dy) = (ledger::live_blocks() - blocks - allowed, ledger::live_bytes() - bytes - 8 * allowed);
        if db == 0 && dy == 0 {
            return Ok(());
        }
        last = Some((db, dy));
    }
    match last {
        Some((b, y)) if !cfg!(miri) => Err(format!(
            "LEDGER: {} blocks ({y} bytes) more are allocated after the tree is gone than before it existed",
            b
        )),
        _ => Ok(()),
    }
}

fn one<S: Store<It>>(c: &Case, obs: &mut Obs) -> Result<(), String> {
    balanced(|| {
        fresh_slate();
        let forgotten = life::<S>(c, obs)?;
        let heap = c.p(gen::P_HEAP) % 2 == 1;
        Ok(if heap { forgotten as isize } else { 0 })
    })
}

fn settled(expected: u64, what: &str) -> Result<(), String> {
    ledger::check()?;
    let live = ledger::count_live() as u64;
    ensure!(live == expected, "LEDGER: {what}: {live} items are alive, should be {expected}");
    Ok(())
}

/// Returns the number of items let go by forget().
fn life<S: Store<It>>(c: &Case, obs: &mut Obs) -> Result<u64, String> {
    let mut w = World::<S>::new(c);
    w.strict = false;
    w.build_shape(&c.recs, obs)?;
    let mut forgotten = 0u64;
    let m0 = gen::mark(&w);
    let mut edges = c.recs.iter().any(|r| r.k == gen::SHAPE_LEAF);
    for (i, r) in c.recs.iter().enumerate() {
        let what = || format!("after step {i} {}", gen::show_rec(r));
        if r.k < NKINDS {
            w.apply(r, obs)?;
            edges |= gen::classify(m0, &w, obs);
        } else if r.k == CLONE {
            let n = w.tree.len();
            let other = crate::fuel::with(1_000_000, || w.tree.clone());
            settled((w.tree.len() + other.len()) as u64 + forgotten + w.forgotten, "after clone()")?;
            ensure!(other.len() == n, "clone has {} items, should have {n}", other.len());
            if r.a % 2 == 0 {
                drop(other);
            } else {
                // go on with the clone
                let items = crate::walk::snap(&other)?.items();
                let old = std::mem::replace(&mut w.tree, other);
                drop(old);
                for (m, i) in w.model.iter_mut().zip(items) {
                    m.uid = i.1
                }
            }
            obs.hit("clones");
        } else if r.k == CONSUME {
            let tree = std::mem::take(&mut w.tree);
            let n = tree.len();
            w.model.clear();
            let mut it = tree.into_iter();
            let k = take(&mut it, r.b as usize, r.a as usize)?;
            settled(n as u64 - k.len() as u64 + k.len() as u64 + forgotten + w.forgotten, "partially consumed")?;
            drop(it);
            settled(k.len() as u64 + forgotten + w.forgotten, "after dropping a consuming iterator")?;
            obs.hit("consumptions");
        }
        ledger::check().map_err(|e| format!("{}: {e}", what()))?;
        // every item is in the tree or gone
        settled(w.tree.len() as u64 + forgotten + w.forgotten, &what())?;
    }
    forgotten += w.forgotten;
    obs.nontrivial |= S::TRACKED && edges && w.tree.len() > 0;
    let tree = w.tree;
    let n = tree.len() as u64;
    drop(w.model);
    let (front, back) = (c.p(END + 1) as usize, c.p(END + 2) as usize);
    crate::fuel::with(2_000_000, || -> Result<(), String> {
        match c.p(END) % ENDS {
            0 => drop(tree),
            1 => {
                let mut tree = tree;
                tree.clear();
                settled(forgotten, "after clear()")?;
                drop(tree)
            }
            2 => {
                let mut tree = tree;
                let d = ledger::drops();
                tree.forget();
                ensure!(ledger::drops() == d, "LEDGER: forget() ran {} item destructors", ledger::drops() - d);
                forgotten += n;
                ensure!(tree.len() == 0 && tree.is_empty(), "after forget() len() is {}", tree.len());
                drop(tree);
                ensure!(ledger::drops() == d, "LEDGER: dropping a forgotten tree ran item destructors");
            }
            3 => {
                let mut it = tree.into_iter();
                let k = take(&mut it, front, back)?;
                drop(it);
                settled(k.len() as u64 + forgotten, "after dropping a partially consumed iterator")?;
            }
            4 => {
                let k: Vec<It> = tree.into_iter().collect();
                settled(n + forgotten, "after collecting the tree")?;
                ensure!(k.len() as u64 == n, "collected {} items, should be {n}", k.len());
                for i in &k {
                    i.touch();
                }
            }
            5 => {
                let mut it = tree.into_iter().rev();
                for _ in 0..front {
                    it.next();
                }
                let l = it.last();
                if let Some(l) = &l {
                    l.touch()
                }
            }
            6 => {
                let a = tree.clone();
                settled(2 * n + forgotten, "after clone()")?;
                if front % 2 == 0 {
                    drop(tree);
                    settled(n + forgotten, "after dropping the original")?;
                    drop(a);
                } else {
                    drop(a);
                    settled(n + forgotten, "after dropping the clone")?;
                    drop(tree);
                }
            }
            9 | 10 | 11 => {
                // some from both ends, some by one call, and the rest by another
                let mut it = tree.into_iter();
                let k = take(&mut it, front % 5, back % 5)?;
                if c.p(END) % ENDS > 9 {
                    crate::iters::part(&mut it, front as u32, back, |x| x.uid);
                    let left = it.len() as u64;
                    settled(left + k.len() as u64 + forgotten, "after a call that advances a consuming iterator")?;
                }
                if c.p(END) % ENDS > 10 {
                    drop(it)
                } else {
                    crate::iters::rest(it, back as u32, front % 32, |x| x.uid);
                }
                settled(k.len() as u64 + forgotten, "after a call that uses a consuming iterator up")?;
            }
            7 => {
                let mut it = tree.into_iter();
                while let Some(i) = it.next() {
                    i.touch();
                    drop(i);
                    if let Some(j) = it.next_back() {
                        j.touch();
                    }
                }
            }
            _ => {
                // moved into a box and dropped through it, after clear and re-use
                let mut b = Box::new(tree);
                b.clear();
                let _ = b.insert(|a: &It, b: &It| a.key.cmp(&b.key), It::new(1, c.p(gen::P_HEAP) % 2 == 1));
                settled(1 + forgotten, "after clear() and one insert()")?;
                drop(b);
            }
        }
        Ok(())
    })?;
    settled(forgotten, "at the end")?;
    obs.add("items accounted for", ledger::created());
    Ok(forgotten)
}

fn take(it: &mut (impl DoubleEndedIterator<Item = It> + ExactSizeIterator), front: usize, back: usize) -> Result<Vec<It>, String> {
    let mut v = vec![];
    for _ in 0..front {
        v.extend(it.next());
    }
    for _ in 0..back {
        v.extend(it.next_back());
    }
    for i in &v {
        i.touch();
        ensure!(i.intact(), "LEDGER: a consuming iterator yields something that is not a live item");
    }
    Ok(v)
}
