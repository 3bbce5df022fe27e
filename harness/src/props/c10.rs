//! C10: keyed operations under comparators that are not orders. Oracle: conservation of items and structure.
use super::*;
use crate::fuel;
use crate::gen::{self, ensure, World, OWN};
use crate::ledger::{self, It};
use crate::store::Store;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::HashSet;
use std::sync::OnceLock;

/// rec: k = OWN + operation, a = key, b = comparator kind + 16 * seed
const OPS: u32 = 5;
const KINDS: u32 = 10;

fn enumerated() -> &'static Vec<Case> {
    static E: OnceLock<Vec<Case>> = OnceLock::new();
    E.get_or_init(|| {
        shapes_with(2, &mut |_, items, out| {
            for op in 0..OPS {
                for b in 0..KINDS {
                    out.push(rec(OWN + op, items as u32 / 2, b));
                }
            }
        })
    })
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "a misbehaving comparator led an insert or a remove to change a tree of at least two nodes",
        phases: |t| {
            vec![
                ph("small shapes; histories", Exe::Checked, enumerated().len() as u64, n(t, 60_000)),
                ph("histories, shipped configuration", Exe::Ship, 0, n(t, 40_000)),
            ]
        },
        enumerate: |i, _, _| enumerated()[i as usize].clone(),
        gen: |r, _, _| {
            let mut c = some_tree(r, 80);
            let fixed = r.chance(1, 2);
            let b = r.u32() >> 8;
            let w = *[[8, 8, 1, 1, 1], [3, 12, 1, 1, 1], [12, 3, 1, 1, 1]].get(r.below(3) as usize).unwrap();
            for _ in 0..r.range(1, 150) {
                let b = if fixed { b } else { r.u32() >> 8 };
                c.recs.push(rec(OWN + r.weighted(&w), r.below(200), b));
            }
            c
        },
        run,
        describe: gen::describe,
    }
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    on_store!(c, obs, one)
}

fn mix(a: u64, b: u64) -> u64 {
    let mut h = crate::case::Fnv::new();
    h.u64(a);
    h.u64(b);
    h.0
}

/// The misbehaving comparators; `calls` counts calls within one operation.
fn lie(kind: u32, seed: u64, calls: &Cell<u64>, a: u64, b: u64) -> Ordering {
    let n = calls.get();
    calls.set(n + 1);
    let three = |x: u64| match x % 3 {
        0 => Ordering::Less,
        1 => Ordering::Equal,
        _ => Ordering::Greater,
    };
    let two = |x: u64| if x % 2 == 0 { Ordering::Less } else { Ordering::Greater };
    match kind % KINDS {
        0 => Ordering::Less,
        1 => Ordering::Greater,
        2 => Ordering::Equal,
        // rock, paper, scissors
        3 => match (a % 3 + 3 - b % 3) % 3 {
            0 => Ordering::Equal,
            1 => Ordering::Greater,
            _ => Ordering::Less,
        },
        // different from call to call
        4 => three(mix(seed, n)),
        5 => two(mix(seed, n)),
        // arbitrary but fixed relation
        6 => three(mix(seed ^ a, b)),
        7 => two(mix(seed ^ a, b)),
        // the reverse of the order the tree was built with
        8 => b.cmp(&a),
        // right most of the time
        _ => {
            if mix(seed, n) % 5 == 0 {
                a.cmp(&b).reverse()
            } else {
                a.cmp(&b)
            }
        }
    }
}

fn one<S: Store<It>>(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut w = gen::build::<S>(c, obs)?;
    let mut owned: HashSet<u64> = w.model.iter().map(|m| m.uid).collect();
    for (i, r) in c.recs.iter().enumerate() {
        if r.k < OWN || r.k >= OWN + OPS {
            continue;
        }
        let nodes = w.snap()?.nodes.len();
        let changed = step(&mut w, &mut owned, r).map_err(|e| format!("step {i} {}: {e}", gen::show_rec(r)))?;
        if changed && nodes > 1 && S::TRACKED {
            obs.nontrivial = true;
            obs.hit("edits of larger trees");
        }
    }
    Ok(())
}

fn step<S: Store<It>>(w: &mut World<S>, owned: &mut HashSet<u64>, r: &Rec) -> Result<bool, String> {
    let calls = Cell::new(0);
    let (kind, seed) = (r.b % 16, (r.b / 16) as u64);
    let key = if w.model.is_empty() || r.a % 3 == 0 { w.key(r.a) } else { w.model[r.a as usize % w.model.len()].key };
    let ck = |a: &It, b: &u64| {
        fuel::cmp();
        a.touch();
        lie(kind, seed, &calls, a.key, *b)
    };
    let ci = |a: &It, b: &It| {
        fuel::cmp();
        a.touch();
        b.touch();
        lie(kind, seed, &calls, a.key, b.key)
    };
    let f = fuel::for_len(owned.len());
    let mut changed = false;
    let tree = &mut w.tree;
    fuel::with(f, || -> Result<(), String> {
        match r.k - OWN {
            0 => {
                let it = It::new(key, w.heap);
                let uid = it.uid;
                let got = panics(|| tree.insert(ci, it)).map_err(|m| format!("insert panics: {m}"))?;
                if let Some(old) = got {
                    ensure!(old.uid != uid, "insert returned the item being inserted");
                    ensure!(old.intact() && owned.remove(&old.uid), "insert returned item {}, which the tree did not hold", old.uid);
                }
                owned.insert(uid);
                changed = true;
            }
            1 => {
                let got = panics(|| tree.remove(ck, &key)).map_err(|m| format!("remove panics: {m}"))?;
                if let Some(old) = got {
                    ensure!(old.intact() && owned.remove(&old.uid), "remove returned item {}, which the tree did not hold", old.uid);
                    changed = true;
                }
            }
            2 => {
                let got = panics(|| tree.get(ck, &key).map(|i| i.uid)).map_err(|m| format!("get panics: {m}"))?;
                ensure!(got.map(|u| owned.contains(&u)) != Some(false), "get returned an item the tree does not hold");
            }
            3 => {
                let got = panics(|| tree.get_mut(ck, &key).map(|i| i.uid)).map_err(|m| format!("get_mut panics: {m}"))?;
                ensure!(got.map(|u| owned.contains(&u)) != Some(false), "get_mut returned an item the tree does not hold");
            }
            _ => {
                let got = panics(|| tree.address_of(ck, &key)).map_err(|m| format!("address_of panics: {m}"))?;
                match got {
                    Ok(a) => {
                        let u = unsafe { tree.get_at(a) }.map(|i| i.uid);
                        ensure!(u.map(|u| owned.contains(&u)) == Some(true), "address_of is Ok({a:?}), where no item is");
                    }
                    Err(None) => ensure!(owned.is_empty(), "address_of is Err(None) on a non-empty tree"),
                    Err(Some(_)) => ensure!(!owned.is_empty(), "address_of is an address in an empty tree"),
                }
            }
        }
        Ok(())
    })?;
    // conservation and structure
    let s = w.snap()?;
    s.check_structure(w.tree.len())?;
    s.check_distinct(S::num)?;
    let items = s.items();
    ensure!(items.len() == owned.len(), "the tree holds {} items, should hold {}", items.len(), owned.len());
    let now: HashSet<u64> = items.iter().map(|x| x.1).collect();
    ensure!(&now == owned, "the tree does not hold exactly the items put in and not given back");
    ensure!(w.tree.is_empty() == owned.is_empty(), "is_empty() is {}", w.tree.is_empty());
    fuel::with(fuel::for_len(owned.len()), || -> Result<(), String> {
        let seen: Vec<u64> = w.tree.iter().map(|i| i.uid).collect();
        ensure!(seen == items.iter().map(|x| x.1).collect::<Vec<_>>(), "iteration does not yield the items stored");
        Ok(())
    })?;
    ledger::check()?;
    Ok(changed)
}
