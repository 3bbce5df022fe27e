//! C07: fault injection. A user callback panics at its k-th call, for every k the operation reaches (or sampled k).
use super::*;
use crate::gen::{self, ensure, World, OWN};
use crate::ledger::{self, It};
use crate::store::{self, Store};
use raw_btree::RawBTree;
use std::sync::OnceLock;

const CMP: u32 = OWN;
const CLONE: u32 = OWN + 1;
const DROP_CLEAR: u32 = OWN + 2;
const DROP_TREE: u32 = OWN + 3;
const DROP_ITER: u32 = OWN + 4;
const DROP_LAST: u32 = OWN + 5;
const VISIT: u32 = OWN + 6;
const KINDS: u32 = 7;

fn enumerated() -> &'static Vec<Case> {
    static E: OnceLock<Vec<Case>> = OnceLock::new();
    E.get_or_init(|| {
        shapes_with(2, &mut |_, items, out| {
            for k in 0..4 {
                out.push(rec(CMP, k * 3, k));
            }
            out.push(rec(CLONE, 0, 0));
            out.push(rec(VISIT, 0, 0));
            for i in [0, 1, 2, items / 2, items.saturating_sub(2), items.saturating_sub(1)] {
                for k in DROP_CLEAR..=DROP_LAST {
                    out.push(rec(k, i as u32, (i % 3) as u32));
                }
            }
        })
    })
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "an injected panic actually fired inside the operation on a non-empty tree",
        phases: |t| {
            vec![
                ph("every callback position on every small shape; random trees", Exe::Checked, enumerated().len() as u64, n(t, 150_000)),
                ph("random trees, shipped configuration", Exe::Ship, 0, n(t, 80_000)),
            ]
        },
        enumerate: |i, _, _| enumerated()[i as usize].clone(),
        gen: |r, _, _| {
            let mut c = some_tree(r, 120);
            for _ in 0..r.range(1, 4) {
                let a = if r.chance(1, 2) { r.below(12) } else { r.below(300) };
                c.recs.push(rec(OWN + r.weighted(&[4, 2, 3, 2, 3, 2, 1]), a, r.u32() >> 8));
            }
            c
        },
        run,
        describe: |c| gen::describe(c).replace("op100", "cmp-panic").replace("op101", "clone-panic").replace("op102", "clear-drop-panic")
            .replace("op103", "tree-drop-panic").replace("op104", "into_iter-drop-panic").replace("op105", "into_iter-last-panic").replace("op106", "visitor-panic"),
    }
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    on_store!(c, obs, one)
}

/// Runs f, which must either finish or unwind with the injected panic.
fn inject<R>(f: impl FnOnce() -> R) -> Result<Option<R>, String> {
    match panics(f) {
        Ok(r) => Ok(Some(r)),
        Err(m) if m.starts_with(ledger::INJECTED) => Ok(None),
        Err(m) => Err(format!("the injected panic caused another one: {m}")),
    }
}

fn one<S: Store<It>>(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut w = gen::build::<S>(c, obs)?;
    for (i, r) in c.recs.iter().enumerate() {
        if r.k < OWN || r.k >= OWN + KINDS {
            continue;
        }
        crate::fuel::unlimited();
        fault(&mut w, r, obs).map_err(|e| format!("step {i}: {e}"))?;
        ledger::check().map_err(|e| format!("step {i} {}: {e}", gen::show_rec(r)))?;
    }
    // drops the tree
    drop(w);
    ledger::check().map_err(|e| format!("when the tree is dropped at the end: {e}"))
}

fn untouched<S: Store<It>>(w: &World<S>, before: &crate::walk::Snap<S::Node>, what: &str) -> Result<(), String> {
    ledger::check()?;
    let now = w.snap()?;
    ensure!(&now == before, "{what}: the tree changed from {} to {}", before.shape(), now.shape());
    ensure!(w.tree.len() == before.len(), "{what}: len() is {}, should be {}", w.tree.len(), before.len());
    Ok(())
}

/// The tree that survived works as an ordinary one.
fn usable<S: Store<It>>(tree: &mut RawBTree<It, S>, what: &str) -> Result<(), String> {
    let s = crate::walk::snap(tree)?;
    s.check_structure(tree.len()).map_err(|e| format!("{what}: {e}"))?;
    let cmp = |a: &It, b: &It| a.key.cmp(&b.key);
    for k in 0..30 {
        tree.insert(cmp, It::new(k * 7 % 30, true));
    }
    let s = crate::walk::snap(tree)?;
    s.check_structure(tree.len()).map_err(|e| format!("{what}, then used: {e}"))?;
    for k in 0..30 {
        ensure!(tree.remove(|a: &It, k: &u64| a.key.cmp(k), &k).is_some(), "{what}, then used: an inserted item is missing");
    }
    let s = crate::walk::snap(tree)?;
    s.check_structure(tree.len()).map_err(|e| format!("{what}, then used: {e}"))
}

fn fault<S: Store<It>>(w: &mut World<S>, r: &Rec, obs: &mut Obs) -> Result<(), String> {
    let n = w.model.len();
    match r.k {
        CMP => {
            // every comparison the operation makes, in turn
            let before = w.snap()?;
            let key = match r.b / 4 % 3 {
                0 if n > 0 => w.model[r.a as usize % n].key,
                1 if n > 0 => w.model[r.a as usize % n].key + 1,
                _ => w.key(r.a),
            };
            let mut k = 0;
            loop {
                let live = ledger::count_live();
                crate::fuel::set_cmp_fuse(Some(k));
                let op = r.b % 5;
                let (ck, ci) = (w.cmp_key(), w.cmp_item());
                let item = (op == 0).then(|| w.item(key));
                let tree = &mut w.tree;
                let res = inject(|| match op {
                    0 => tree.insert(ci, item.unwrap()).is_some(),
                    1 => tree.remove(ck, &key).is_some(),
                    2 => tree.get(ck, &key).is_some(),
                    3 => tree.get_mut(ck, &key).is_some(),
                    _ => tree.address_of(ck, &key).is_ok(),
                });
                let fired = !crate::fuel::cmp_fuse_armed();
                crate::fuel::set_cmp_fuse(None);
                let what = format!("operation {op} with its comparator panicking at call {k}");
                match res.map_err(|e| format!("{what}: {e}"))? {
                    Some(_) => {
                        ensure!(!fired, "{what}: the panic was swallowed");
                        break;
                    }
                    None => {
                        untouched(w, &before, &what)?;
                        ensure!(
                            ledger::count_live() == live,
                            "LEDGER: {what}: {} items alive, should be {live}",
                            ledger::count_live()
                        );
                        obs.hit("comparator panics");
                        obs.nontrivial |= n > 0;
                    }
                }
                k += 1;
                ensure!(k < 1000, "more than 1000 comparisons in one operation");
            }
            // the operation without a fault went through: resynchronise
            let items = w.snap()?.items();
            w.model = items.iter().map(|x| gen::Mi { key: x.0, uid: x.1, val: 0 }).collect();
        }
        CLONE => {
            let before = w.snap()?;
            store::strict_leaks(false);
            // every clone call in small trees, a sample in larger ones
            let ks: Vec<u64> = if n <= 60 { (0..n as u64).collect() } else { (0..12).map(|i| (i * 37 + r.a as u64) % n as u64).collect() };
            for k in ks {
                ledger::set_clone_fuse(Some(k));
                let tree = &w.tree;
                let res = inject(|| {
                    let t = tree.clone();
                    drop(t);
                });
                let fired = ledger::clone_fuse_left().is_none();
                ledger::set_clone_fuse(None);
                let what = format!("clone() with the clone of item {k} panicking");
                let res = res.map_err(|e| format!("{what}: {e}"))?;
                ensure!(res.is_none() == fired, "{what}: the panic was swallowed");
                untouched(w, &before, &what)?;
                if fired {
                    obs.hit("clone panics");
                    obs.nontrivial = true;
                }
            }
        }
        VISIT => {
            let before = w.snap()?;
            let nodes = before.nodes.len();
            for k in 0..nodes.min(30) {
                let mut c = 0;
                let tree = &mut w.tree;
                let res = inject(|| {
                    let mut f = || {
                        if c == k {
                            panic!("{}", ledger::INJECTED)
                        }
                        c += 1;
                    };
                    if r.b % 2 == 0 {
                        tree.visit_from_leaves(|_| f())
                    } else {
                        tree.visit_from_leaves_mut(|_, _| f())
                    }
                })?;
                ensure!(res.is_none(), "a visitor's panic was swallowed");
                untouched(w, &before, "visiting with a panicking visitor")?;
                obs.hit("visitor panics");
                obs.nontrivial = true;
            }
        }
        DROP_CLEAR | DROP_TREE | DROP_ITER | DROP_LAST => {
            store::strict_leaks(false);
            let mut tree = std::mem::take(&mut w.tree);
            w.model.clear();
            if n == 0 {
                return Ok(());
            }
            let k = r.a as u64 % n as u64;
            let what = format!("{} with the destructor of item {k} of {n} panicking", gen::show_rec(r));
            let fired;
            match r.k {
                DROP_CLEAR => {
                    ledger::set_drop_fuse(Some(k));
                    let res = inject(|| tree.clear());
                    fired = ledger::drop_fuse_left().is_none();
                    ledger::set_drop_fuse(None);
                    let res = res.map_err(|e| format!("{what}: {e}"))?;
                    ensure!(res.is_none() == fired, "{what}: the panic was swallowed");
                    ledger::check().map_err(|e| format!("{what}: {e}"))?;
                    ensure!(
                        tree.len() == 0 && tree.is_empty() && tree.iter().next().is_none() && tree.first().is_none(),
                        "{what}: the tree is not empty afterwards (len() = {})",
                        tree.len()
                    );
                    usable(&mut tree, &what)?;
                    w.tree = tree;
                }
                DROP_TREE => {
                    ledger::set_drop_fuse(Some(k));
                    let res = inject(|| drop(tree));
                    fired = ledger::drop_fuse_left().is_none();
                    ledger::set_drop_fuse(None);
                    res.map_err(|e| format!("{what}: {e}"))?;
                }
                _ => {
                    let mut it = tree.into_iter();
                    let take = (r.b as usize % 7).min(n.saturating_sub(k as usize + 1));
                    let mut kept = vec![];
                    for j in 0..take {
                        kept.extend(if (r.b >> 4) % 2 == 0 || j % 2 == 0 { it.next() } else { it.next_back() });
                    }
                    ledger::set_drop_fuse(Some(k));
                    let last = r.k == DROP_LAST;
                    let res = inject(|| {
                        if last {
                            let _ = it.last();
                        } else {
                            drop(it)
                        }
                    });
                    fired = ledger::drop_fuse_left().is_none();
                    ledger::set_drop_fuse(None);
                    res.map_err(|e| format!("{what}: {e}"))?;
                    ledger::check().map_err(|e| format!("{what}: {e}"))?;
                    for i in &kept {
                        ensure!(i.intact(), "LEDGER: {what}: an item handed out before was dropped as well");
                    }
                }
            }
            ledger::check().map_err(|e| format!("{what}: {e}"))?;
            if fired {
                obs.hit("destructor panics");
                obs.nontrivial = true;
            }
        }
        _ => (),
    }
    Ok(())
}
