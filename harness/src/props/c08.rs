//! C08: the storage contract (monitored), and independence of the storage: differential runs on five storages.
use super::*;
use crate::gen::{self, ensure, World, NKINDS, OWN};
use crate::ledger::{self, It};
use crate::store::{Slab, Store, FRESH, LIFO, MOVING, SELF};
use raw_btree::storage::BoxStorage;
use std::sync::OnceLock;

const CLONE: u32 = OWN;
const CONSUME: u32 = OWN + 1;
const VISIT: u32 = OWN + 2;
const NAV: u32 = OWN + 3;
const ITER: u32 = OWN + 4;

fn enumerated() -> &'static Vec<Case> {
    static E: OnceLock<Vec<Case>> = OnceLock::new();
    E.get_or_init(|| {
        shapes_with(2, &mut |_, items, out| {
            for i in 0..=items {
                out.push(rec(gen::INSERT_GAP, i as u32, 0));
                out.push(rec(gen::REMOVE_RANK, i as u32, 0));
            }
            for k in [CLONE, CONSUME, VISIT, NAV, ITER] {
                out.push(rec(k, items as u32 / 2, 1));
                out.push(rec(k, 1, 0));
            }
            out.push(rec(gen::CLEAR, 0, 0));
            out.push(rec(gen::FORGET, 0, 0));
        })
    })
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "the history released at least one node and allocated another one afterwards (identifier reuse)",
        phases: |t| {
            vec![
                ph("small shapes; histories", Exe::Checked, enumerated().len() as u64, n(t, 12_000)),
                ph("histories, shipped configuration", Exe::Ship, 0, n(t, 8_000)),
            ]
        },
        enumerate: |i, _, _| enumerated()[i as usize].clone(),
        gen: |r, _, _| {
            let mut c = gen::history(r, &gen::HistCfg { addressed: true, max_ops: 250, ..Default::default() });
            if r.chance(1, 5) {
                let mut s = random_shape(r);
                c.params[1] = 0;
                s.append(&mut c.recs);
                c.recs = s;
            }
            for _ in 0..r.below(6) {
                let at = r.below(c.recs.len() as u32 + 1) as usize;
                c.recs.insert(at, rec(OWN + r.below(5), r.below(40), r.below(8)));
            }
            c
        },
        run,
        describe: gen::describe,
    }
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut want = None;
    diff::<Slab<It, FRESH>>(c, obs, &mut want)?;
    diff::<Slab<It, LIFO>>(c, obs, &mut want)?;
    diff::<Slab<It, SELF>>(c, obs, &mut want)?;
    diff::<Slab<It, MOVING>>(c, obs, &mut want)?;
    diff::<BoxStorage>(c, obs, &mut want)
}

fn diff<S: Store<It>>(c: &Case, obs: &mut Obs, want: &mut Option<Vec<Vec<u64>>>) -> Result<(), String> {
    fresh_slate();
    let mut scratch = Obs::default();
    let o = if want.is_none() { obs } else { &mut scratch };
    let got = panics(|| trace::<S>(c, o)).unwrap_or_else(|m| Err(format!("PANIC: {m}")));
    ledger::check().map_err(|e| format!("on {}: {e}", S::NAME))?;
    let got = got.map_err(|e| format!("on {}: {e}", S::NAME))?;
    match want {
        None => *want = Some(got),
        Some(w) => {
            for (i, (a, b)) in w.iter().zip(&got).enumerate() {
                ensure!(
                    a == b,
                    "step {i} {} behaves differently on {} than on slab-fresh (returned values, contents or shape)",
                    c.recs.get(i).map(gen::show_rec).unwrap_or_default(),
                    S::NAME
                );
            }
            ensure!(w.len() == got.len(), "runs of different length");
        }
    }
    Ok(())
}

fn observe<S: Store<It>>(w: &World<S>, out: &mut Vec<u64>) -> Result<(), String> {
    let s = w.snap()?;
    out.push(s.shape_hash());
    out.push(w.tree.len() as u64);
    out.extend(s.items().iter().map(|x| x.1));
    Ok(())
}

fn trace<S: Store<It>>(c: &Case, obs: &mut Obs) -> Result<Vec<Vec<u64>>, String> {
    let mut out = vec![];
    let mut w = World::<S>::new(c);
    w.strict = false;
    w.build_shape(&c.recs, obs)?;
    let mut released = false;
    for r in &c.recs {
        let mut o = vec![];
        let m = gen::mark(&w);
        let a0 = crate::fuel::allocs();
        crate::fuel::with(3_000_000, || -> Result<(), String> {
            if r.k < NKINDS {
                w.apply(r, obs)?;
                o.append(&mut w.trace);
            } else {
                special(&mut w, r, &mut o)?;
            }
            Ok(())
        })?;
        if released && crate::fuel::allocs() > a0 {
            obs.nontrivial = true;
        }
        gen::classify(m, &w, obs);
        released |= crate::fuel::releases() > 0;
        observe(&w, &mut o)?;
        if S::TRACKED {
            ledger::check().map_err(|e| format!("{}: {e}", gen::show_rec(r)))?;
            // no unreachable nodes
            let nodes = w.snap()?.nodes.len() as u64;
            let active = crate::fuel::allocs() - crate::fuel::releases();
            ensure!(active == nodes, "CONTRACT: {}: {active} nodes are allocated but {nodes} reachable", gen::show_rec(r));
        }
        out.push(o);
    }
    let (allocs, nodes) = (crate::fuel::allocs(), w.snap()?.nodes.len() as u64);
    drop(w);
    if S::TRACKED {
        ensure!(
            crate::fuel::releases() == allocs,
            "CONTRACT: {allocs} nodes were allocated but {} released by the end ({nodes} were in the tree)",
            crate::fuel::releases()
        );
    }
    Ok(out)
}

fn special<S: Store<It>>(w: &mut World<S>, r: &Rec, o: &mut Vec<u64>) -> Result<(), String> {
    match r.k {
        CLONE => {
            let t = w.tree.clone();
            let s = crate::walk::snap(&t)?;
            o.push(s.shape_hash());
            if r.b % 2 == 1 {
                let items = s.items();
                w.tree = t;
                for (m, i) in w.model.iter_mut().zip(items) {
                    m.uid = i.1
                }
            }
        }
        CONSUME => {
            let t = std::mem::take(&mut w.tree);
            w.model.clear();
            let mut it = t.into_iter();
            for i in 0..r.a {
                let x = if r.b % 3 == 0 || (r.b % 3 == 1 && i % 2 == 0) { it.next() } else { it.next_back() };
                o.push(x.map(|x| x.uid).unwrap_or(u64::MAX));
            }
        }
        VISIT => {
            let s = w.snap()?;
            let mut n = vec![];
            if r.b % 2 == 0 {
                w.tree.visit_from_leaves(|id| n.push(id))
            } else {
                w.tree.visit_from_leaves_mut(|id, _| n.push(id))
            }
            for id in n {
                o.push(s.nodes.iter().position(|x| x.id == id).unwrap_or(usize::MAX) as u64);
            }
        }
        NAV => {
            let s = w.snap()?;
            for p in s.addresses() {
                if s.is_item(p) {
                    let a = s.addr(p);
                    let t = &w.tree;
                    for q in unsafe {
                        [
                            t.next_item_address(a),
                            t.previous_item_address(a),
                            t.next_back_address(a),
                            t.previous_front_address(a),
                            t.normalize(a),
                            Some(t.leaf_address(a)),
                            t.next_item_or_back_address(a),
                        ]
                    } {
                        match q.and_then(|q| s.find(q)) {
                            Some(q) => o.push((q.node as u64) << 32 | (q.off + 1) as u64),
                            None => o.push(u64::MAX),
                        }
                    }
                }
            }
        }
        ITER => {
            if r.b % 2 == 0 {
                o.extend(w.tree.iter().map(|x| x.uid));
            } else {
                o.extend(w.tree.iter_mut().rev().map(|x| x.uid));
            }
        }
        _ => (),
    }
    Ok(())
}
