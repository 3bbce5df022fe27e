//! The properties. Each module states one as: how cases are enumerated and generated, and the oracle that judges a case.

use crate::case::{Case, Rec, Rng};
use crate::driver::{Exe, Phase, Tier};
use crate::gen;
use crate::obs::Obs;
use crate::walk;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub phases: fn(Tier) -> Vec<Phase>,
    pub enumerate: fn(u64, usize, Tier) -> Case,
    pub gen: fn(&mut Rng, usize, Tier) -> Case,
    pub run: fn(&Case, &mut Obs) -> Result<(), String>,
    pub describe: fn(&Case) -> String,
}
#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c12")]
mod c12;
#[cfg(feature = "c13")]
mod c13;
#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c16")]
mod c16;
#[cfg(feature = "c17")]
mod c17;
#[cfg(feature = "c18")]
mod c18;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c21")]
mod c21;
#[cfg(feature = "c22")]
mod c22;
#[cfg(feature = "c24")]
mod c24;
#[cfg(feature = "c25")]
mod c25;
#[cfg(feature = "c26")]
mod c26;
#[cfg(any(feature = "c19", feature = "c20", feature = "c24"))]
mod lean;
#[cfg(any(feature = "c20", feature = "c24"))]
mod mix;

pub fn all() -> Vec<Prop> {
    vec![
        #[cfg(feature = "c01")]
        c01::prop(),
        #[cfg(feature = "c02")]
        c02::prop(),
        #[cfg(feature = "c03")]
        c03::prop(),
        #[cfg(feature = "c04")]
        c04::prop(),
        #[cfg(feature = "c05")]
        c05::prop(),
        #[cfg(feature = "c06")]
        c06::prop(),
        #[cfg(feature = "c07")]
        c07::prop(),
        #[cfg(feature = "c08")]
        c08::prop(),
        #[cfg(feature = "c09")]
        c09::prop(),
        #[cfg(feature = "c10")]
        c10::prop(),
        #[cfg(feature = "c11")]
        c11::prop(),
        #[cfg(feature = "c12")]
        c12::prop(),
        #[cfg(feature = "c13")]
        c13::prop(),
        #[cfg(feature = "c14")]
        c14::prop(),
        #[cfg(feature = "c15")]
        c15::prop(),
        #[cfg(feature = "c16")]
        c16::prop(),
        #[cfg(feature = "c17")]
        c17::prop(),
        #[cfg(feature = "c18")]
        c18::prop(),
        #[cfg(feature = "c19")]
        c19::prop(),
        #[cfg(feature = "c20")]
        c20::prop(),
        #[cfg(feature = "c21")]
        c21::prop(),
        #[cfg(feature = "c22")]
        c22::prop(),
        #[cfg(feature = "c24")]
        c24::prop(),
        #[cfg(feature = "c25")]
        c25::prop(),
        #[cfg(feature = "c26")]
        c26::prop(),
    ]
}
pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}

/// Open findings of a property, from the committed known-findings file.
pub fn known_findings(id: &str) -> Vec<String> {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let text = std::fs::read_to_string(format!("{dir}/known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| l.split_once(' '))
        .filter(|(i, _)| *i == id)
        .map(|(_, t)| t.to_string())
        .collect()
}

// ------------------------------------------------------------------ helpers

pub fn ph(name: &'static str, exe: Exe, enumerated: u64, random: u64) -> Phase {
    Phase { name, exe, enumerated, random }
}
/// Number of random cases for the tier.
pub fn n(t: Tier, quick: u64) -> u64 {
    if t == Tier::Thorough {
        quick * 16
    } else {
        quick
    }
}
pub fn rec(k: u32, a: u32, b: u32) -> Rec {
    Rec { k, a, b }
}

/// Forget everything recorded about items, nodes and steps, as at the start of a case.
pub fn fresh_slate() {
    crate::ledger::reset();
    crate::fuel::reset();
    crate::store::reset();
}

/// Runs `$f::<S>` for the storage the case selects. The default storage cannot be instrumented, so its cases first run
/// on a tracked one: misuse and non-termination then show deterministically instead of as a crash or a hang.
/// Storage parameter: the default storage, without the run on a tracked one.
pub const ONLY_BOXED: u32 = 1000;
#[allow(unused_macros)]
macro_rules! on_store {
    ($c:expr, $obs:expr, $f:ident) => {{
        if $c.p(0) == $crate::props::ONLY_BOXED {
            $f::<raw_btree::storage::BoxStorage>($c, $obs)
        } else if $c.p(0) % 5 == 0 {
            $f::<$crate::store::Slab<$crate::ledger::It, { $crate::store::FRESH }>>($c, $obs)?;
            $crate::props::fresh_slate();
            $f::<raw_btree::storage::BoxStorage>($c, $obs)
        } else {
            $crate::with_store!($c.p(0), $crate::ledger::It, $f($c, $obs))
        }
    }};
}
#[allow(unused_imports)]
pub(crate) use on_store;

pub fn no_enum(_: u64, _: usize, _: Tier) -> Case {
    Case::default()
}

/// Runs `f`, telling whether it panicked.
pub fn panics<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let m = crate::driver::last_panic();
            drop(e);
            Err(m)
        }
    }
}

/// A shape case with the given trailing records, spread over the storages.
pub fn shapes_with(
    max_leaves: usize,
    ops: &mut dyn FnMut(&[Vec<u8>], usize, &mut Vec<Rec>),
) -> Vec<Case> {
    gen::shape_cases(max_leaves, ops).iter().enumerate().map(|(i, s)| s.to_case(1 + (i % 4) as u32)).collect()
}

/// Random tree shape records: one or two levels of leaf sizes.
pub fn random_shape(r: &mut Rng) -> Vec<Rec> {
    let (min, max) = (walk::MIN_ITEMS as u32, walk::MAX_LEAF as u32);
    let mut v = vec![];
    let groups = match r.below(10) {
        0 => 0,
        1..=5 => 1,
        6..=8 => 2,
        _ => 3,
    };
    for _ in 0..groups {
        if groups > 1 {
            v.push(rec(gen::SHAPE_GROUP, 0, 0));
        }
        let lo = if groups > 1 { walk::MIN_ITEMS as u32 + 1 } else { 1 };
        for _ in 0..r.range(lo, max) {
            v.push(rec(gen::SHAPE_LEAF, if r.chance(2, 3) { r.pick(&[min, min, min + 1, max, max]) } else { r.range(min, max) }, 0));
        }
    }
    v
}

/// Leading part of a case that only has to produce some tree: a shape, or a history.
pub fn some_tree(r: &mut Rng, max_ops: u32) -> Case {
    if r.chance(1, 3) {
        let store = r.below(5);
        Case { params: vec![store, 0, 1000, r.below(2), 1], recs: random_shape(r) }
    } else {
        let mut c = gen::history(
            r,
            &gen::HistCfg { max_ops, addressed: false, reads: false, wipes: true, orders: false, max_univ: 600 },
        );
        if r.chance(1, 40) {
            c.recs.clear();
        }
        c
    }
}
