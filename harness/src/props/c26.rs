//! C26: the histories of other properties on copies of the crate whose order `M` is set to other permitted values.
use super::*;

/// The orders explored. `harness/needs.sh` says the same.
pub const ORDERS: [(u8, &str); 9] = [
    (4, "order 4"),
    (5, "order 5"),
    (6, "order 6"),
    (7, "order 7"),
    (9, "order 9"),
    (10, "order 10"),
    (12, "order 12"),
    (16, "order 16"),
    (24, "order 24"),
];
const QUICK: [u8; 4] = [4, 5, 7, 16];

pub const SUB: usize = 20;
type Sub = (&'static str, u32, fn() -> Prop);
const SUBS: [Sub; 15] = [
    ("histories by key", 4, super::c01::prop),
    ("structure", 8, super::c02::prop),
    ("iterators", 2, super::c03::prop),
    ("navigation", 2, super::c04::prop),
    ("address edits", 8, super::c05::prop),
    ("ownership", 3, super::c06::prop),
    ("panics", 2, super::c07::prop),
    ("clones", 2, super::c09::prop),
    ("arbitrary comparators", 2, super::c10::prop),
    ("visitors", 1, super::c12::prop),
    ("validation", 3, super::c13::prop),
    ("nodes", 5, super::c15::prop),
    ("search", 3, super::c16::prop),
    ("item buffers", 4, super::c21::prop),
    ("forests", 3, super::c25::prop),
];

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        rule: "the case is non-trivial by the rule of the property it belongs to, at the order of the phase",
        phases: |t| {
            ORDERS
                .iter()
                .filter(|(m, _)| t == Tier::Thorough || QUICK.contains(m))
                .map(|(m, name)| ph(name, Exe::Order(*m), 0, n(t, 300_000)))
                .chain([ph("the order in the source", Exe::Checked, 0, n(t, 40_000))])
                .collect()
        },
        enumerate: no_enum,
        gen,
        run,
        describe: |c| format!("[{}] {}", name(c), ((sub(c).2)().describe)(&plain(c))),
    }
}

fn sub(c: &Case) -> &'static Sub {
    &SUBS[c.p(SUB) as usize % SUBS.len()]
}
fn name(c: &Case) -> &'static str {
    sub(c).0
}

fn gen(r: &mut Rng, _: usize, t: Tier) -> Case {
    let k = r.weighted(&SUBS.map(|s| s.1));
    let p = (SUBS[k as usize].2)();
    let all = (p.phases)(t)[0].enumerated;
    let mut c = if all > 0 && r.chance(1, 4) {
        (p.enumerate)(r.next() % all, 0, t)
    } else {
        (p.gen)(r, 0, t)
    };
    c.params.resize(SUB, 0);
    c.params.push(k);
    c
}

fn plain(c: &Case) -> Case {
    let mut c = c.clone();
    c.params.truncate(SUB);
    c
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    obs.hit(name(c));
    ((sub(c).2)().run)(&plain(c), obs).map_err(|e| format!("order {}: {e}", raw_btree::M))
}
