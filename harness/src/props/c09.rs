//! C09: clones: equality, validity, one clone call per item, and independence under interleaved histories.
use super::*;
use crate::gen::{self, ensure, Mi, World, NKINDS};
use crate::ledger::{self, It};
use crate::store::Store;
use std::sync::OnceLock;

/// Records with b >= SIDE act on the clone.
const SIDE: u32 = 1 << 20;

fn enumerated() -> &'static Vec<Case> {
    static E: OnceLock<Vec<Case>> = OnceLock::new();
    E.get_or_init(|| {
        shapes_with(3, &mut |g, items, out| {
            let step = if g.len() > 1 { 9 } else { 3 };
            for i in (0..items).step_by(step) {
                out.push(rec(gen::OWN + gen::INSERT_GAP, i as u32, if i % 2 == 0 { SIDE } else { 0 }));
                out.push(rec(gen::OWN + gen::REMOVE_RANK, i as u32, if i % 2 == 0 { SIDE } else { 0 }));
            }
        })
    })
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "a tree of at least two nodes was cloned and both trees were edited afterwards",
        phases: |t| {
            vec![
                ph("small shapes; histories on both sides", Exe::Checked, enumerated().len() as u64, n(t, 40_000)),
                ph("histories on both sides, shipped configuration", Exe::Ship, 0, n(t, 20_000)),
            ]
        },
        enumerate: |i, _, _| enumerated()[i as usize].clone(),
        gen: |r, _, _| {
            let mut c = some_tree(r, 200);
            c.params[1] = 0;
            let h = gen::history(r, &gen::HistCfg { addressed: true, orders: false, max_ops: 120, ..Default::default() });
            for x in h.recs {
                c.recs.push(rec(gen::OWN + x.k, x.a, x.b % SIDE + if r.chance(1, 2) { SIDE } else { 0 }));
            }
            c.params.resize(gen::P_EXTRA, 0);
            c.params.push(r.below(8));
            c.params.push(r.below(8));
            c
        },
        run,
        describe: gen::describe,
    }
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    on_store!(c, obs, one)
}

fn one<S: Store<It>>(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut a = gen::build::<S>(c, obs)?;
    // distinct payloads
    for it in a.tree.iter_mut() {
        it.val = it.uid ^ 77;
    }
    for m in a.model.iter_mut() {
        m.val = m.uid ^ 77;
    }
    let before = a.snap()?;
    let how = c.p(gen::P_EXTRA + 1) % 8;
    let other = match how {
        // a tree that becomes the clone: it had other items, or the same keys, or none
        4 | 5 => {
            let mut o = World::<S>::new(c);
            o.strict = false;
            o.apply(&rec(gen::GROW, c.p(gen::P_EXTRA), if how == 4 { 7 } else { a.model.len() as u32 / 2 + 30 }), obs)?;
            Some(o.tree)
        }
        6 => Some(a.tree.clone()),
        7 => Some(raw_btree::RawBTree::new()),
        _ => None,
    };
    let calls = ledger::clones();
    let live = ledger::count_live();
    let gone = other.as_ref().map(|o| o.len()).unwrap_or(0);
    let tree = crate::fuel::with(10_000_000, || match other {
        Some(mut o) => {
            obs.hit("trees made clones");
            o.clone_from(&a.tree);
            o
        }
        None => a.tree.clone(),
    });
    let calls = ledger::clones() - calls;
    ensure!(calls == a.model.len() as u64, "cloning called clone {calls} times for {} items", a.model.len());
    let left = ledger::count_live() + gone;
    ensure!(left == live + a.model.len(), "LEDGER: {} items exist after cloning, should be {}", left - gone, live + a.model.len() - gone);
    plain(&a)?;
    ensure!(a.snap()? == before, "clone() changed the original");
    let s = crate::walk::snap(&tree)?;
    s.check_structure(a.model.len()).map_err(|e| format!("the clone: {e}"))?;
    s.check_distinct(S::num).map_err(|e| format!("the clone: {e}"))?;
    let mut b = World::<S>::new(c);
    b.tree = tree;
    b.order = a.order;
    let mut used = std::collections::HashSet::new();
    for m in &a.model {
        used.insert(m.uid);
    }
    let items = s.items();
    ensure!(items.len() == a.model.len(), "the clone holds {} items, should hold {}", items.len(), a.model.len());
    ensure!(
        b.tree.len() == items.len() && b.tree.is_empty() == items.is_empty(),
        "the clone's len() is {} with {} items",
        b.tree.len(),
        items.len()
    );
    for (m, (k, u)) in a.model.iter().zip(&items) {
        ensure!(m.key == *k, "the clone holds key {k} where the original holds {}", m.key);
        ensure!(used.insert(*u), "LEDGER: the clone holds an item of the original, or one item twice");
        b.model.push(Mi { key: *k, uid: *u, val: m.val });
    }
    // the clone iterates and navigates like any tree
    b.check_contents().map_err(|e| format!("the clone: {e}"))?;
    crate::fuel::with(20_000_000, || super::c04::navigation_minimal(&b.tree, &s)).map_err(|e| format!("the clone: {e}"))?;
    crate::fuel::with(1_000_000, || -> Result<(), String> {
        let rev: Vec<u64> = b.tree.iter().rev().map(|i| i.uid).collect();
        let want: Vec<u64> = b.model.iter().rev().map(|m| m.uid).collect();
        ensure!(rev == want, "iterating the clone backwards gives other items than forwards");
        Ok(())
    })?;
    obs.hit("clones");
    // interleaved histories
    let mut edited = [false; 2];
    a.strict = true;
    b.strict = true;
    for (i, r) in c.recs.iter().enumerate() {
        if r.k < gen::OWN || r.k >= gen::OWN + NKINDS {
            continue;
        }
        let side = (r.b >= SIDE) as usize;
        let x = rec(r.k - gen::OWN, r.a, r.b % SIDE);
        let w = if side == 1 { &mut b } else { &mut a };
        let did = w.apply(&x, obs).map_err(|e| format!("step {i} on the {}: {e}", NAME[side]))?;
        edited[side] |= did && !matches!(x.k, gen::GET | gen::GET_RANK | gen::ENDS);
        if i % 4 == 0 {
            both(&a, &b).map_err(|e| format!("after step {i} on the {}: {e}", NAME[side]))?;
        }
    }
    both(&a, &b)?;
    obs.nontrivial |= S::TRACKED && before.nodes.len() > 1 && edited[0] && edited[1];
    // dropping one leaves the other alone
    let (gone, mut left, name) = if c.p(gen::P_EXTRA) % 2 == 0 { (a, b, NAME[1]) } else { (b, a, NAME[0]) };
    match c.p(gen::P_EXTRA) / 2 % 4 {
        0 => drop(gone),
        1 => {
            let mut it = gone.tree.into_iter();
            it.next();
            it.next_back();
        }
        2 => {
            let mut g = gone;
            g.tree.clear();
        }
        _ => {
            let mut g = gone;
            g.tree.forget();
        }
    }
    left.check_contents().map_err(|e| format!("the {name}, after the other one is gone: {e}"))?;
    let s = left.snap()?;
    s.check_structure(left.model.len()).map_err(|e| format!("the {name}, after the other one is gone: {e}"))?;
    for i in 0..10u32 {
        left.apply(&rec(gen::INSERT, i * 13, 0), obs)?;
        left.apply(&rec(gen::REMOVE_RANK, i * 7, 0), obs)?;
    }
    left.check_contents().map_err(|e| format!("the {name}, used after the other one is gone: {e}"))
}
/// Items without a destructor, whose clones can be told from copies all the same; and items without contents.
#[derive(Debug)]
struct Plain {
    key: u64,
    generation: u64,
}
thread_local! {
    static CALLS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
impl Clone for Plain {
    fn clone(&self) -> Self {
        CALLS.with(|c| c.set(c.get() + 1));
        Plain { key: self.key, generation: self.generation + 1 }
    }
}
struct Nil;
impl Clone for Nil {
    fn clone(&self) -> Self {
        CALLS.with(|c| c.set(c.get() + 1));
        Nil
    }
}
fn plain<S: Store<It>>(a: &World<S>) -> Result<(), String> {
    use raw_btree::RawBTree;
    let n = a.model.len();
    let mut t: RawBTree<Plain> = RawBTree::new();
    let mut z: RawBTree<Nil> = RawBTree::new();
    let mut at = None;
    for m in &a.model {
        let o = a.order;
        t.insert(|x, y| gen::ord(o, x.key, y.key), Plain { key: m.key, generation: 1 });
        if n < 40 {
            at = unsafe { z.insert_at(at, Nil) };
        }
    }
    for how in [true, false] {
        CALLS.with(|c| c.set(0));
        let u = if how {
            t.clone()
        } else {
            let mut u: RawBTree<Plain> = RawBTree::new();
            u.insert(|x, y| x.key.cmp(&y.key), Plain { key: 1, generation: 9 });
            u.clone_from(&t);
            u
        };
        let calls = CALLS.with(|c| c.get());
        ensure!(calls == t.len() as u64 && u.len() == t.len(), "cloning {} items without destructor calls clone {calls} times", t.len());
        for (x, y) in t.iter().zip(u.iter()) {
            ensure!(
                x.key == y.key && x.generation == 1 && y.generation == 2,
                "an item without destructor is not the result of clone in the clone: {x:?}, {y:?}"
            );
        }
        ensure!(u.iter().count() == t.len(), "the clone yields {} items without destructor of {}", u.iter().count(), t.len());
    }
    CALLS.with(|c| c.set(0));
    let u = z.clone();
    let calls = CALLS.with(|c| c.get());
    ensure!(
        calls == z.len() as u64 && u.len() == z.len() && u.iter().count() == z.len(),
        "cloning {} items without contents calls clone {calls} times and gives {}",
        z.len(),
        u.len()
    );
    Ok(())
}
const NAME: [&str; 2] = ["original", "clone"];

fn both<S: Store<It>>(a: &World<S>, b: &World<S>) -> Result<(), String> {
    for (i, w) in [a, b].iter().enumerate() {
        w.check_contents().map_err(|e| format!("the {}: {e}", NAME[i]))?;
        w.snap()?.check_structure(w.model.len()).map_err(|e| format!("the {}: {e}", NAME[i]))?;
    }
    Ok(())
}
