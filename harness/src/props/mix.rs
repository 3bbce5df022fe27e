//! Cases of other properties, re-run under a memory or aliasing checker. Only memory verdicts count here.
use super::*;
use crate::gen;

/// The parameter that selects the property a case belongs to.
pub const SUB: usize = 20;

type Sub = (&'static str, u32, fn() -> Prop);
/// Name, weight, property.
const SUBS: [Sub; 15] = [
    ("histories", 4, super::c01::prop),
    ("iterators", 3, super::c03::prop),
    ("address edits", 3, super::c05::prop),
    ("ownership", 4, super::c06::prop),
    ("panics", 4, super::c07::prop),
    ("clones", 2, super::c09::prop),
    ("arbitrary comparators", 2, super::c10::prop),
    ("visitors", 1, super::c12::prop),
    ("DOT", 1, super::c14::prop),
    ("nodes", 3, super::c15::prop),
    ("item buffers", 3, super::c21::prop),
    ("item types", 4, super::c22::prop),
    ("navigation", 1, super::c04::prop),
    ("lean histories", 40, super::lean::prop),
    ("forests", 3, super::c25::prop),
];

fn sub(c: &Case) -> Prop {
    (SUBS[c.p(SUB) as usize % SUBS.len()].2)()
}

/// A case of some property. `small`: short enough for an interpreter. `boxed`: which share uses the default storage.
pub fn generate(r: &mut Rng, small: bool, boxed: (u32, u32)) -> Case {
    // what the other properties check around each step is far too much work for an interpreter
    let k = r.weighted(&SUBS.map(|s| match s.0 {
        "histories" | "navigation" | "DOT" | "arbitrary comparators" | "address edits" if small => 0,
        _ => s.1,
    }));
    let p = (SUBS[k as usize].2)();
    let mut c = Case::default();
    for _ in 0..4 {
        c = (p.gen)(r, 0, Tier::Quick);
        if SUBS[k as usize].0 == "lean histories" {
            break;
        }
        if small {
            for r in c.recs.iter_mut().filter(|r| matches!(r.k, gen::GROW | gen::SHRINK)) {
                r.b = 4 + r.b % 24;
            }
        }
        if small && SUBS[k as usize].0 == "item types" {
            c.recs.truncate(14);
        }
        if small && SUBS[k as usize].0 == "forests" {
            super::c25::shrink(&mut c);
            break;
        }
        if small && c.recs.len() > 20 {
            // the end of a case often says what to do with the tree
            let tail = r.range(4, 10) as usize;
            let cut = c.recs.len() - tail;
            c.recs.drain(12..cut.max(12));
        }
        if !small || cost(&c) <= 45 {
            break;
        }
        c.recs.clear();
    }
    c.params.resize(SUB, 0);
    c.params.push(k);
    let nodes = matches!(SUBS[k as usize].0, "nodes" | "item buffers" | "lean histories");
    if !nodes && r.chance(boxed.0, boxed.1) {
        c.params[0] = 0;
    }
    c
}

fn cost(c: &Case) -> u32 {
    c.recs
        .iter()
        .map(|r| match r.k {
            gen::INSERT_RUN | gen::REMOVE_RUN => 1 + r.b % 32,
            gen::SHAPE_LEAF => 10,
            gen::GROW | gen::SHRINK => r.b,
            _ => 1,
        })
        .sum()
}

pub fn describe(c: &Case) -> String {
    let p = sub(c);
    format!("[{}] {}", SUBS[c.p(SUB) as usize % SUBS.len()].0, (p.describe)(&plain(c)))
}

fn plain(c: &Case) -> Case {
    let mut c = c.clone();
    c.params.truncate(SUB);
    c
}

/// Whether an item reference from iter_mut may be kept while the iterator advances.
pub fn is_iter_mut_kept(c: &Case) -> bool {
    let kind = c.p(gen::P_EXTRA);
    SUBS[c.p(SUB) as usize % SUBS.len()].0 == "iterators"
        && (kind & 8 != 0 || (matches!(kind % 8 % 5, 2 | 3) && c.recs.iter().any(|r| super::c03::by_calls(r))))
}

pub fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let p = sub(c);
    let name = SUBS[c.p(SUB) as usize % SUBS.len()].0;
    obs.hit(name);
    let r = panics(|| (p.run)(&plain(c), obs));
    let memory = |m: &str| m.contains("LEDGER") || m.contains("CONTRACT");
    let bad = crate::ledger::check();
    crate::ledger::set_clone_fuse(None);
    crate::ledger::set_drop_fuse(None);
    bad?;
    match r {
        Ok(Err(m)) if memory(&m) => Err(m),
        Err(m) if memory(&m) => Err(format!("PANIC: {m}")),
        _ => Ok(()),
    }
}
