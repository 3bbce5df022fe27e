//! C02: every state of every history is a well-formed B-tree (independent structural walk), plus bounded-exhaustive
//! enumeration of small shapes with every single edit.
use super::*;
use crate::gen::{self, ensure, World, NKINDS};
use crate::ledger::It;
use crate::store::Store;
use std::sync::OnceLock;

fn enumerated() -> &'static Vec<Case> {
    static E: OnceLock<Vec<Case>> = OnceLock::new();
    E.get_or_init(|| {
        shapes_with(3, &mut |g, items, out| {
            // large shapes: one edit per leaf edge is enough, small ones: every position
            let step = if g.len() > 1 { 7 } else { 1 };
            for i in (0..=items).step_by(step) {
                out.push(rec(gen::INSERT_GAP, i as u32, 0));
            }
            for i in (0..items).step_by(step) {
                out.push(rec(gen::REMOVE_RANK, i as u32, 0));
            }
        })
    })
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "an operation after which the structure was checked split, merged or rotated nodes, or changed the height, \
               or hit a tree of height 2 or more",
        phases: |t| {
            vec![
                ph("every edit of every small shape; histories", Exe::Checked, enumerated().len() as u64, n(t, 120_000)),
                ph("histories, shipped configuration", Exe::Ship, 0, n(t, 60_000)),
            ]
        },
        enumerate: |i, _, _| enumerated()[i as usize].clone(),
        gen: |r, _, _| {
            if r.chance(1, 6) {
                let mut c = Case { params: vec![r.below(5), 0, 1000, 0, 1], recs: random_shape(r) };
                for _ in 0..r.range(1, 30) {
                    let k = r.pick(&[gen::INSERT_GAP, gen::REMOVE_RANK, gen::REMOVE_RANK, gen::INSERT_AT, gen::REMOVE_AT]);
                    c.recs.push(rec(k, r.u32() >> 8, 0));
                }
                return c;
            }
            gen::history(r, &gen::HistCfg { addressed: true, reads: false, max_ops: 300, ..Default::default() })
        },
        run,
        describe: gen::describe,
    }
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    on_store!(c, obs, one)
}

/// The oracle: everything C02 says about one state.
pub fn well_formed<S: Store<It>>(w: &World<S>) -> Result<(), String> {
    let s = w.snap()?;
    ensure!(
        s.is_empty() == (w.tree.len() == 0),
        "STRUCTURE: root is {} although len() is {}",
        if s.is_empty() { "absent" } else { "present" },
        w.tree.len()
    );
    ensure!(w.tree.is_empty() == s.is_empty(), "is_empty() is {} with {} items", w.tree.is_empty(), s.len());
    s.check_structure(w.tree.len())?;
    s.check_distinct(S::num)?;
    let items = s.items();
    let o = w.order;
    if let Some(p) = items.windows(2).find(|p| !gen::ord(o, p[0].0, p[1].0).is_lt()) {
        return Err(format!("STRUCTURE: items {} and {} are out of order", p[0].0, p[1].0));
    }
    #[cfg(debug_assertions)]
    {
        let cmp = w.cmp_item();
        if let Err(m) = panics(|| crate::fuel::with(u64::MAX, || w.tree.validate(cmp))) {
            return Err(format!("validate() rejects the tree: {m}"));
        }
    }
    Ok(())
}

fn one<S: Store<It>>(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut w = World::<S>::new(c);
    w.strict = false;
    w.build_shape(&c.recs, obs)?;
    well_formed(&w).map_err(|e| format!("after building the shape: {e}"))?;
    for (i, r) in c.recs.iter().enumerate() {
        if r.k >= NKINDS {
            continue;
        }
        let m = gen::mark(&w);
        w.apply(r, obs)?;
        let edge = gen::classify(m, &w, obs);
        well_formed(&w).map_err(|e| format!("after step {i} {}: {e}", gen::show_rec(r)))?;
        obs.say(|| format!("{i} {}: {}", gen::show_rec(r), w.snap().map(|s| s.shape()).unwrap_or_default()));
        if edge || (S::TRACKED && gen::height_of(&w.tree) > 1) {
            obs.nontrivial = true;
        }
    }
    Ok(())
}
