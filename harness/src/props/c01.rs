//! C01: model-based testing of keyed histories against a sorted vector.
use super::*;
use crate::gen::{self, ensure, World, NKINDS};
use crate::ledger::It;
use crate::store::Store;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "the history splits and merges at least one node each and contains a removal and a replacing insert",
        phases: |t| {
            vec![
                ph("histories", Exe::Checked, SMALL, n(t, 300_000)),
                ph("histories, shipped configuration", Exe::Ship, 0, n(t, 150_000)),
            ]
        },
        enumerate: |i, _, _| small(i),
        gen: |r, phase, _| {
            let mut c = gen::history(r, &gen::HistCfg::default());
            if phase == 1 && r.chance(2, 3) {
                c.params[0] = 0;
            }
            c
        },
        run,
        describe: gen::describe,
    }
}

/// All insertion orders of up to 4 keys followed by all removal orders (0..4! * 4!), on every storage.
const SMALL: u64 = 24 * 24 * 5;
fn small(i: u64) -> Case {
    let perm = |mut x: u64| {
        let mut v: Vec<u32> = (0..4).collect();
        let mut o = vec![];
        for k in (1..=4u64).rev() {
            o.push(v.remove((x % k) as usize));
            x /= k;
        }
        o
    };
    let mut c = Case { params: vec![(i % 5) as u32, 0, 4, 0, 1], recs: vec![] };
    for k in perm(i / 5 % 24) {
        c.recs.push(rec(gen::INSERT, k, 0));
    }
    c.recs.push(rec(gen::REPLACE_RANK, (i % 4) as u32, 0));
    for k in perm(i / 5 / 24) {
        c.recs.push(rec(gen::REMOVE_KEY, k, 0));
        c.recs.push(rec(gen::ENDS, 0, 0));
    }
    c
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    on_store!(c, obs, one)
}

/// The stored sequence, as the nodes hold it, is the model's.
pub fn contents<S: Store<It>>(w: &World<S>) -> Result<(), String> {
    let items = w.snap()?.items();
    let want: Vec<(u64, u64)> = w.model.iter().map(|m| (m.key, m.uid)).collect();
    ensure!(items == want, "the tree holds {}, should hold {}", show(&items), show(&want));
    ensure!(w.tree.len() == want.len(), "len() is {}, should be {}", w.tree.len(), want.len());
    ensure!(
        w.tree.is_empty() == want.is_empty(),
        "is_empty() is {} with {} items",
        w.tree.is_empty(),
        want.len()
    );
    Ok(())
}
fn show(v: &[(u64, u64)]) -> String {
    crate::driver::clip(&format!("{:?}", v.iter().map(|x| x.1).collect::<Vec<_>>()), 300)
}

fn one<S: Store<It>>(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut w = World::<S>::new(c);
    let stride = c.p(4).max(1) as usize;
    let before: Vec<u64> = CLASSES.iter().map(|k| count(obs, k)).collect();
    for (i, r) in c.recs.iter().enumerate() {
        if r.k >= NKINDS {
            continue;
        }
        let m = gen::mark(&w);
        w.apply(r, obs).map_err(|e| format!("step {i} {}: {e}", gen::show_rec(r)))?;
        gen::classify(m, &w, obs);
        obs.say(|| format!("{i} {}: len {}", gen::show_rec(r), w.tree.len()));
        if i % stride == 0 {
            contents(&w).map_err(|e| format!("after step {i} {}: {e}", gen::show_rec(r)))?;
        }
    }
    contents(&w).map_err(|e| format!("at the end: {e}"))?;
    // every present key, and one absent key next to each, through every accessor
    w.apply(&rec(gen::ENDS, 0, 0), obs)?;
    for i in 0..w.model.len() {
        let k = w.model[i].key;
        crate::fuel::with(crate::fuel::for_len(w.model.len()), || w.get_key(k, i as u32))?;
        crate::fuel::with(crate::fuel::for_len(w.model.len()), || w.get_key(k ^ 1, i as u32 + 1))?;
    }
    if S::TRACKED {
        let after: Vec<u64> = CLASSES.iter().map(|k| count(obs, k)).collect();
        obs.nontrivial |= before.iter().zip(&after).all(|(a, b)| b > a);
    }
    Ok(())
}
const CLASSES: [&str; 4] = ["splits", "merges", "removals", "replacing inserts"];
pub fn count(obs: &Obs, k: &str) -> u64 {
    obs.counts.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(0)
}
