//! C17: offsets and addresses against the integers from -1.
use super::*;
use crate::gen::ensure;
use raw_btree::node::{Address, Offset};
use std::cmp::Ordering;

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "at least one step involves the offset before the first item, and at least one an offset above 1000",
        phases: |t| {
            vec![
                ph("all small pairs; arithmetic walks", Exe::Checked, SMALL, n(t, 150_000)),
                ph("arithmetic walks, shipped configuration", Exe::Ship, SMALL, n(t, 150_000)),
            ]
        },
        enumerate: |i, _, _| Case { params: vec![0], recs: vec![rec(0, (i / BND) as u32, (i % BND) as u32), rec(0, 0, 20)] },
        gen: |r, _, _| {
            let mut c = Case { params: vec![r.below(EDGES.len() as u32 + 4)], recs: vec![] };
            for _ in 0..r.range(1, 24) {
                c.recs.push(rec(r.below(5), code(r), code(r)));
            }
            c
        },
        run,
        describe,
    }
}

const BND: u64 = 24;
const SMALL: u64 = BND * BND;

/// Extreme plain numbers. (usize::MAX itself cannot be told from the offset before the first item, and is left out.)
const EDGES: [usize; 8] = [
    usize::MAX - 1,
    usize::MAX - 2,
    isize::MAX as usize,
    isize::MAX as usize + 1,
    u32::MAX as usize,
    u32::MAX as usize + 1,
    i32::MAX as usize,
    255,
];

fn code(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.below(10),
        3 => 12 + r.below(EDGES.len() as u32),
        _ => r.below(100_000),
    }
}
/// 0: before; 1..=11: small; then the extremes; then itself.
fn val(c: u32) -> i128 {
    match c as usize {
        0 => -1,
        x if x <= 11 => x as i128 - 1,
        x if x < 12 + EDGES.len() => EDGES[x - 12] as i128,
        x => x as i128,
    }
}
fn off(v: i128) -> Offset {
    if v < 0 {
        Offset::before()
    } else {
        Offset::from(v as usize)
    }
}
fn describe(c: &Case) -> String {
    let mut s = String::new();
    for r in &c.recs {
        let n = ["pair", "incr", "decr", "address", "sort"][(r.k % 5) as usize];
        s.push_str(&format!("{n}({}, {}) ", val(r.a), val(r.b)));
    }
    s
}

fn agree(o: Offset, v: i128) -> Result<(), String> {
    ensure!(o.is_before() == (v < 0), "is_before() of {v} is {}", o.is_before());
    ensure!(o.value().map(|x| x as i128) == (v >= 0).then_some(v), "value() of {v} is {:?}", o.value());
    ensure!(o.to_string() == v.to_string(), "{v} is displayed as {o}");
    ensure!(format!("{o:?}") == v.to_string(), "{v} is printed as {o:?}");
    match panics(|| o.unwrap()) {
        Ok(u) => ensure!(u as i128 == v, "unwrap() of {v} is {u}"),
        Err(e) => ensure!(v < 0, "unwrap() of {v} panics: {e}"),
    }
    Ok(())
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let (mut before, mut big) = (false, false);
    for r in &c.recs {
        let (x, y) = (val(r.a), val(r.b));
        before |= x < 0 || y < 0;
        big |= x > 1000 || y > 1000;
        let (a, b) = (off(x), off(y));
        agree(a, x)?;
        match r.k % 5 {
            0 => {
                let want = x.cmp(&y);
                ensure!(a.cmp(&b) == want, "cmp of {x} and {y} is {:?}", a.cmp(&b));
                ensure!(a.partial_cmp(&b) == Some(want), "partial_cmp of {x} and {y} is {:?}", a.partial_cmp(&b));
                ensure!((a == b) == (x == y) && (a != b) == (x != y), "{x} == {y} is {}", a == b);
                ensure!((a < b) == (x < y) && (a <= b) == (x <= y), "{x} < {y} is {}", a < b);
                ensure!((a > b) == (x > y) && (a >= b) == (x >= y), "{x} > {y} is {}", a > b);
                ensure!(a.max(b) == off(x.max(y)) && a.min(b) == off(x.min(y)), "max or min of {x} and {y} is wrong");
                if y >= 0 {
                    let p = y as usize;
                    ensure!((a == p) == (x == y), "offset {x} == number {y} is {}", a == p);
                    ensure!((a != p) == (x != y), "offset {x} != number {y} is {}", a != p);
                    let got = a.partial_cmp(&p);
                    ensure!(got == Some(want), "offset {x} compared with number {y} is {got:?}");
                    ensure!((a < p) == (x < y) && (a <= p) == (x <= y), "offset {x} < number {y} is {}", a < p);
                    ensure!((a > p) == (x > y) && (a >= p) == (x >= y), "offset {x} > number {y} is {}", a > p);
                }
                // the greatest plain number is greater than every offset
                let p = usize::MAX;
                ensure!(a != p && !(a == p), "offset {x} equals the number {p}");
                ensure!(a < p && a <= p && !(a > p) && !(a >= p), "offset {x} is not less than the number {p}");
                ensure!(a.partial_cmp(&p) == Some(Ordering::Less), "offset {x} compared with {p} is {:?}", a.partial_cmp(&p));
                let (lo, hi) = (x.min(y), x.max(y));
                for z in [x, y, -1, 0, 7, EDGES[0] as i128] {
                    let got = off(z).clamp(off(lo), off(hi));
                    ensure!(got == off(z.clamp(lo, hi)), "{z} clamped to {lo}..={hi} is {got}");
                }
                #[allow(clippy::clone_on_copy)]
                let mut d = a.clone();
                ensure!(d == a, "the clone of {x} is {d}");
                d.clone_from(&b);
                ensure!(d == b, "{x} made a clone of {y} is {d}");
                use std::hash::{DefaultHasher, Hash, Hasher};
                let h = |o: Offset| {
                    let mut h = DefaultHasher::new();
                    o.hash(&mut h);
                    h.finish()
                };
                ensure!(x != y || h(a) == h(b), "equal offsets {x} hash differently");
                obs.hit("comparisons");
            }
            1 => {
                let (mut o, mut v) = (a, x);
                for _ in 0..(r.b % 40) + 1 {
                    if v + 1 >= usize::MAX as i128 {
                        break;
                    }
                    o.incr();
                    v += 1;
                    agree(o, v).map_err(|e| format!("after incr: {e}"))?;
                    ensure!(o > a, "incr does not increase {x}");
                }
                obs.hit("incr");
            }
            2 => {
                let (mut o, mut v) = (a, x);
                for _ in 0..(r.b % 40) + 1 {
                    if v < 0 {
                        break;
                    }
                    o.decr();
                    v -= 1;
                    agree(o, v).map_err(|e| format!("after decr: {e}"))?;
                    ensure!(o < a, "decr does not decrease {x}");
                }
                let mut o = a;
                if x >= 0 {
                    o.decr();
                    o.incr();
                    ensure!(o == a, "decr then incr changes {x}");
                }
                obs.hit("decr");
            }
            3 => {
                let (n, m) = (r.b as u64, r.a as u64 / 2);
                let p = Address::new(n, a);
                let q = Address::new(m, b);
                ensure!(p.node == n && p.offset == a, "Address::new does not keep its parts");
                ensure!((p == q) == (n == m && x == y), "@{n}:{x} == @{m}:{y} is {}", p == q);
                ensure!((p != q) == (n != m || x != y), "@{n}:{x} != @{m}:{y} is {}", p != q);
                let same = Address::new(n, off(x));
                ensure!(same == p, "an address differs from itself");
                ensure!(Address::new(n, b) == p || x != y, "equal addresses differ");
                ensure!((Address::new(m, a) == p) == (n == m), "addresses of different nodes compare wrong");
                ensure!(p.to_string() == format!("@{n}:{x}"), "@{n}:{x} is displayed as {p}");
                ensure!(format!("{p:?}") == format!("@{n}:{x}"), "@{n}:{x} is printed as {p:?}");
                let s = Address::new("node", a);
                ensure!(s.to_string() == format!("@node:{x}"), "@node:{x} is displayed as {s}");
                ensure!(format!("{s:?}") == format!("@\"node\":{x}"), "@\"node\":{x} is printed as {s:?}");
                let copy = p;
                ensure!(copy == p && p.clone() == p, "a copied address differs");
                let mut other = q;
                other.clone_from(&p);
                ensure!(other == p && other.node == n && other.offset == a, "@{m}:{y} made a clone of @{n}:{x} is {other}");
                obs.hit("addresses");
            }
            _ => {
                // ordering a list of offsets
                let mut v: Vec<i128> = c.recs.iter().flat_map(|r| [val(r.a), val(r.b)]).collect();
                let mut o: Vec<Offset> = v.iter().map(|v| off(*v)).collect();
                v.sort();
                o.sort();
                for (x, o) in v.iter().zip(&o) {
                    agree(*o, *x).map_err(|e| format!("after sorting: {e}"))?;
                }
                ensure!(o.iter().max().copied() == v.last().map(|v| off(*v)), "max of offsets is wrong");
                ensure!(o.windows(2).all(|w| w[0].cmp(&w[1]) != Ordering::Greater), "sorted offsets are not in order");
                obs.hit("sorts");
            }
        }
    }
    obs.nontrivial |= before && big;
    Ok(())
}
