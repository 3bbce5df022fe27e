//! C11: measured cost. Heights, comparisons per level and node accesses per level over histories and bulk growth.
use super::*;
use crate::fuel;
use crate::gen::{self, ensure, World, NKINDS, OWN};
use crate::ledger::It;
use crate::store::{Slab, Store, FRESH};
use raw_btree::M;

/// Grow by `a` items in pattern b, then shrink.
const GROW: u32 = OWN;
const SHRINK: u32 = OWN + 1;

/// Node accesses allowed per level (three times the most any operation of the unchanged tree was seen to make).
const SEARCH_PER_LEVEL: u64 = 12;
const EDIT_PER_LEVEL: u64 = 120;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "an operation was measured on a tree of height 3 or more",
        phases: |t| vec![ph("histories and bulk growth", Exe::Checked, 12, n(t, 40_000))],
        enumerate: |i, _, t| {
            let big = if t == Tier::Thorough { 60_000 } else { 12_000 };
            let mut c = Case { params: vec![1, 0, 1 << 20, 0, 1], recs: vec![] };
            c.recs.push(rec(GROW, big, i as u32));
            c.recs.push(rec(SHRINK, if i % 2 == 0 { big - 3 } else { big }, i as u32 / 4));
            c.recs.push(rec(GROW, 500, i as u32 / 2));
            c
        },
        gen: |r, _, _| {
            let cfg = gen::HistCfg { max_ops: 500, max_univ: 4000, reads: true, ..Default::default() };
            let mut c = gen::history(r, &cfg);
            c.params[0] = 1;
            for _ in 0..r.range(1, 4) {
                let at = r.below(c.recs.len() as u32 + 1) as usize;
                let k = if r.chance(2, 3) { GROW } else { SHRINK };
                c.recs.insert(at, rec(k, r.below(800), r.below(12)));
            }
            c
        },
        run,
        describe: gen::describe,
    }
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    one::<Slab<It, { FRESH }>>(c, obs)
}

fn one<S: Store<It>>(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut w = World::<S>::new(c);
    w.strict = false;
    let mut max = [0u64; 2];
    for (i, r) in c.recs.iter().enumerate() {
        let e = |m: String| format!("step {i} {}: {m}", gen::show_rec(r));
        match r.k {
            GROW => {
                let mut x = 0u32;
                for j in 0..r.a {
                    x = match r.b % 4 {
                        0 => j,
                        1 => (1 << 20) - 1 - j,
                        2 => (j as u64 * 0x9E37_79B1 % (1 << 20)) as u32,
                        _ => {
                            // alternate both ends towards the middle
                            if j % 2 == 0 {
                                j
                            } else {
                                (1 << 20) - 1 - j
                            }
                        }
                    };
                    measured(&mut w, &rec(gen::INSERT, x, 0), obs, &mut max).map_err(e)?;
                }
                measured(&mut w, &rec(gen::GET, x, 0), obs, &mut max).map_err(e)?;
            }
            SHRINK => {
                for j in 0..r.a {
                    let x = match r.b % 3 {
                        0 => 0,
                        1 => u32::MAX >> 1,
                        _ => j * 7919,
                    };
                    let x = if w.model.is_empty() { 0 } else if x == u32::MAX >> 1 { w.model.len() as u32 - 1 } else { x };
                    measured(&mut w, &rec(gen::REMOVE_RANK, x, 0), obs, &mut max).map_err(e)?;
                }
            }
            // runs are several operations: measure them one by one
            gen::INSERT_RUN => {
                for j in 0..=(r.b % 32) {
                    measured(&mut w, &rec(gen::INSERT, r.a.wrapping_add(j), 0), obs, &mut max).map_err(e)?;
                }
            }
            gen::REMOVE_RUN => {
                for _ in 0..=(r.b % 32) {
                    measured(&mut w, &rec(gen::REMOVE_RANK, r.a, 0), obs, &mut max).map_err(e)?;
                }
            }
            k if k < NKINDS => {
                measured(&mut w, r, obs, &mut max).map_err(e)?;
            }
            _ => (),
        }
    }
    obs.say(|| format!("most node accesses per level: search {}, edit {}", max[0], max[1]));
    Ok(())
}

fn measured<S: Store<It>>(w: &mut World<S>, r: &Rec, obs: &mut Obs, max: &mut [u64; 2]) -> Result<(), String> {
    let n0 = w.tree.len();
    let h0 = gen::height_of(&w.tree) as u64;
    let (c0, g0) = (fuel::cmps(), fuel::gets());
    let search = matches!(r.k, gen::GET | gen::GET_RANK | gen::GET_MUT_RANK);
    let judged = search || matches!(r.k, gen::INSERT | gen::INSERT_GAP | gen::REPLACE_RANK | gen::REMOVE_KEY | gen::REMOVE_RANK | gen::REMOVE_END);
    w.apply(r, obs)?;
    let (c, g) = (fuel::cmps() - c0, fuel::gets() - g0);
    let h1 = gen::height_of(&w.tree) as u64;
    let n = w.tree.len();
    // height <= 1 + log_{M/2}((n + 1) / 2)
    if n > 0 {
        let mut limit = 1;
        let mut cap = 2 * (M / 2);
        while cap <= n + 1 {
            limit += 1;
            cap *= M / 2;
        }
        ensure!(h1 <= limit, "a tree of {n} items has height {h1}, at most {limit} is allowed");
    }
    if judged {
        let levels = h0.max(h1).max(1);
        ensure!(
            c <= 2 * M as u64 * levels,
            "{c} comparisons on {n0} items in {levels} levels, at most {} are allowed",
            2 * M as u64 * levels
        );
        let per = if search { SEARCH_PER_LEVEL } else { EDIT_PER_LEVEL };
        ensure!(
            g <= per * levels,
            "{g} node accesses on {n0} items in {levels} levels, at most {} are allowed",
            per * levels
        );
        let i = !search as usize;
        max[i] = max[i].max(g.div_ceil(levels));
        obs.hit("operations measured");
        if levels >= 3 {
            obs.nontrivial = true;
            obs.hit("operations measured at height 3+");
        }
    }
    Ok(())
}
