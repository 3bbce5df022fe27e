//! C21: the fixed-capacity item buffer, as handed out and taken by the node constructors, against an ordinary vector.
use super::*;
use crate::gen::ensure;
use crate::iters;
use crate::ledger::{self, It};
use crate::store::{SId, Slab, FRESH};
use raw_btree::node::internal::Branch;
use raw_btree::node::{InternalNode, LeafNode};
use raw_btree::M;
use std::ops::Bound;

type S = Slab<It, { FRESH }>;

const PUSH: u32 = 0;
const POP: u32 = 1;
const INSERT: u32 = 2;
const REMOVE: u32 = 3;
const APPEND: u32 = 4;
const DRAIN: u32 = 5;
const CLEAR: u32 = 6;
const CLONE: u32 = 7;
const COLLECT: u32 = 8;
const EXTEND: u32 = 9;
const INDEX: u32 = 10;
const INTO_ITER: u32 = 11;
const PARTS: u32 = 12;
const NODE: u32 = 13;
const NOPS: u32 = 14;
const OPS: [&str; NOPS as usize] = [
    "push", "pop", "insert", "remove", "append", "drain", "clear", "clone", "collect", "extend", "index", "into_iter",
    "into_raw_parts", "through a node",
];

// A drain is described by a and b: a = start + L * (end - start) + L * L * bound kind + 6 * L * L * mode,
// b = front takes + 10 * back takes + 100 * interleaving
const M_DROP: u32 = 0;
const M_EXHAUST: u32 = 1;
const M_LEAK: u32 = 2;
const M_PANIC: u32 = 3;
const M_BEYOND: u32 = 4;
/// Some call other than next() and next_back() (see `iters`) after them.
const M_CALL: u32 = 5;
const MODES: u32 = 6;
const BOUNDS: u32 = 6;

/// One more than the length of the longest buffer.
const L: u32 = if M + 2 > 10 { M as u32 + 2 } else { 10 };
const LENS: u64 = L as u64;
const BOUND: u32 = L * L;
const MODE: u32 = BOUNDS * BOUND;
/// Per length and buffer kind: every drain (start, length, takes from the front, takes from the back) of every mode.
const DRAINS: u64 = LENS * LENS * 4 * 4 * MODES as u64;
const SIMPLE: u64 = NOPS as u64 * 12 * 4;
const PER: u64 = DRAINS + SIMPLE;

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "an operation changed or consumed a buffer of two or more elements, or was refused",
        phases: |t| {
            vec![
                ph("every drain and every operation on every length; operation sequences", Exe::Checked, PER * LENS * 2, n(t, 300_000)),
                ph("operation sequences, shipped configuration", Exe::Ship, PER * LENS * 2, n(t, 200_000)),
                ph("operation sequences, AddressSanitizer", Exe::Asan, PER * LENS * 2, n(t, 100_000)),
            ]
        },
        enumerate: |i, _, _| {
            let (kind, i) = ((i % 2) as u32, i / 2);
            let (len, i) = ((i % LENS) as u32, i / LENS);
            let mut c = Case { params: vec![kind, len, (len + kind) % 2], recs: vec![] };
            if i < DRAINS {
                let (start, i) = ((i % LENS) as u32, i / LENS);
                let (count, i) = ((i % LENS) as u32, i / LENS);
                let (f, i) = ((i % 4) as u32, i / 4);
                let (b, mode) = ((i % 4) as u32, (i / 4) as u32);
                let bounds = (start + count + f + b) % BOUNDS;
                let how = (Rng::new(start as u64 + 10 * count as u64 + 100 * f as u64 + 1000 * b as u64).next() % 2048) as u32;
                c.recs.push(rec(DRAIN, start + L * count + BOUND * bounds + MODE * mode, f + 10 * b + 200 * how));
            } else {
                let i = i - DRAINS;
                let (op, i) = ((i % NOPS as u64) as u32, i / NOPS as u64);
                c.recs.push(rec(op, (i % 12) as u32, (i / 12) as u32));
            }
            // what remains must still work
            c.recs.push(rec(PUSH, 0, 0));
            c.recs.push(rec(INSERT, 0, 0));
            c
        },
        gen: |r, _, _| {
            let mut c = Case { params: vec![r.below(2), r.below(L), r.below(2)], recs: vec![] };
            let w: [u32; NOPS as usize] = match r.below(3) {
                0 => [8, 2, 8, 2, 2, 4, 1, 1, 1, 3, 2, 1, 1, 1],
                1 => [3, 3, 3, 6, 1, 8, 1, 1, 1, 2, 2, 1, 1, 1],
                _ => [3, 2, 3, 2, 4, 3, 1, 3, 3, 4, 2, 3, 2, 2],
            };
            for _ in 0..r.range(1, 24) {
                let k = r.weighted(&w);
                c.recs.push(if k == DRAIN {
                    let mode = r.weighted(&[6, 3, 1, 2, 1, 4]);
                    rec(k, r.below(MODE) + MODE * mode, r.below(5) + 10 * r.below(5) + 100 * r.below(2) + 200 * r.below(2048))
                } else {
                    rec(k, r.below(3 * M as u32), r.below(16))
                });
            }
            c
        },
        run,
        describe,
    }
}

fn describe(c: &Case) -> String {
    let mut s = format!(
        "buffer of {} with {} elements{}:",
        if c.p(0) % 2 == 0 { "a leaf" } else { "an internal node" },
        c.p(1) % L,
        if c.p(2) % 2 == 1 { " owning heap memory" } else { "" }
    );
    for r in &c.recs {
        let op = OPS[(r.k % NOPS) as usize];
        if r.k % NOPS == DRAIN {
            let d = Dr::of(r);
            s.push_str(&format!(
                " drain({}..{} as bounds {}, {} from the front, {} from the back, {})",
                d.start, d.start + d.count, d.bounds, d.front, d.back,
                ["dropped", "exhausted", "leaked", "dropped with a panicking destructor", "reaching beyond the end", "advanced or used up by another call"][d.mode as usize]
            ));
        } else {
            s.push_str(&format!(" {op}({},{})", r.a, r.b));
        }
    }
    s
}

struct Dr {
    start: usize,
    count: usize,
    bounds: u32,
    mode: u32,
    front: usize,
    back: usize,
    mixed: bool,
}
impl Dr {
    fn of(r: &Rec) -> Dr {
        Dr {
            start: (r.a % L) as usize,
            count: (r.a / L % L) as usize,
            bounds: r.a / BOUND % BOUNDS,
            mode: r.a / MODE % MODES,
            front: r.b as usize % 10,
            back: r.b as usize / 10 % 10,
            mixed: r.b / 100 % 2 == 1,
        }
    }
    fn range(&self, start: usize, end: usize) -> (Bound<usize>, Bound<usize>) {
        let s = match self.bounds {
            1 | 2 if start == 0 => Bound::Unbounded,
            3 | 4 if start > 0 => Bound::Excluded(start - 1),
            _ => Bound::Included(start),
        };
        let e = match self.bounds {
            2 | 4 | 5 if end > 0 => Bound::Included(end - 1),
            _ => Bound::Excluded(end),
        };
        (s, e)
    }
}

fn typed2<P, A, X>(_: fn(P, A) -> X, a: A) -> A {
    a
}
fn typed3<P, F, A, X>(_: fn(P, F, A) -> X, a: A) -> A {
    a
}

fn settled(inside: usize, lost: usize, what: &str) -> Result<(), String> {
    ledger::check().map_err(|e| format!("{what}: {e}"))?;
    let live = ledger::count_live();
    ensure!(live == inside + lost, "LEDGER: {what}: {live} elements are alive, should be {}", inside + lost);
    Ok(())
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    if c.p(0) % 2 == 0 {
        leaf(c, obs)
    } else {
        internal(c, obs)
    }
}

macro_rules! machine {
    ($name:ident, $typed:expr, $cap:expr, $mk:expr, $get:expr, $un:expr, $clone:expr, $node:expr) => {
        fn $name(c: &Case, obs: &mut Obs) -> Result<(), String> {
            let heap = c.p(2) % 2 == 1;
            let cap: usize = $cap;
            let mk = $mk;
            let get = $get;
            let un = $un;
            let mut keys = 0u64;
            let mut fresh = || {
                keys += 1;
                It::new(keys, heap)
            };
            let mut buf = $typed;
            let mut model: Vec<u64> = vec![];
            // alive but in no buffer: leaked on purpose, or by an unwinding operation
            let mut lost = 0usize;
            for _ in 0..(c.p(1) as usize % L as usize).min(cap) {
                let i = fresh();
                model.push(i.uid);
                buf.push(mk(i));
            }
            macro_rules! uids {
                ($b:expr) => {
                    $b.iter().map(|e| get(e).uid).collect::<Vec<u64>>()
                };
            }
            macro_rules! same {
                ($what:expr) => {{
                    let what = $what;
                    ensure!(buf.len() == model.len(), "{what}: len() is {}, should be {}", buf.len(), model.len());
                    ensure!(buf.is_empty() == model.is_empty(), "{what}: is_empty() is wrong");
                    for e in buf.iter() {
                        ensure!(get(e).intact(), "LEDGER: {what}: the buffer holds something that is not a live element");
                    }
                    let u = uids!(buf);
                    ensure!(u == model, "{what}: the buffer holds elements {u:?}, should hold {model:?}");
                    settled(model.len(), lost, &what)?;
                }};
            }
            // After a leak or an unwinding operation: the buffer holds some of `may`, whole; the rest may be lost.
            macro_rules! resync {
                ($what:expr, $may:expr) => {{
                    let what = $what;
                    for e in buf.iter() {
                        ensure!(get(e).intact(), "LEDGER: {what}: the buffer holds something that is not a live element");
                    }
                    let u = uids!(buf);
                    let may: Vec<u64> = $may;
                    let mut at = 0;
                    for x in &u {
                        match may[at..].iter().position(|y| y == x) {
                            Some(p) => at += p + 1,
                            None => return Err(format!("LEDGER: {what}: the buffer holds elements {u:?} out of {may:?}")),
                        }
                    }
                    ledger::check().map_err(|e| format!("{what}: {e}"))?;
                    model = u;
                    lost = ledger::count_live() - model.len();
                }};
            }
            for (step, r) in c.recs.iter().enumerate() {
                let op = r.k % NOPS;
                let what = format!("step {step} {}({},{})", OPS[op as usize], r.a, r.b);
                let len = model.len();
                obs.nontrivial |= len >= 2;
                match op {
                    PUSH => {
                        let i = fresh();
                        let u = i.uid;
                        match panics(|| buf.push(mk(i))) {
                            Ok(()) => {
                                ensure!(len < cap, "{what}: pushing onto a full buffer succeeds");
                                model.push(u);
                            }
                            Err(m) => {
                                ensure!(len >= cap, "{what}: panics with {len} of {cap} elements: {m}");
                                obs.hit("refused");
                                obs.nontrivial = true;
                            }
                        }
                    }
                    POP => {
                        let g = buf.pop();
                        let w = model.pop();
                        ensure!(g.as_ref().map(|e| get(e).uid) == w, "{what}: pop gives the wrong element, should be {w:?}");
                        if let Some(e) = g {
                            ensure!(un(e).intact(), "LEDGER: {what}: popped element is not live");
                        }
                    }
                    INSERT => {
                        let at = r.a as usize % 12;
                        let i = fresh();
                        let u = i.uid;
                        match panics(|| buf.insert(at, mk(i))) {
                            Ok(()) => {
                                ensure!(at <= len && len < cap, "{what}: accepted with {len} of {cap} elements");
                                model.insert(at, u);
                            }
                            Err(m) => {
                                ensure!(at > len || len >= cap, "{what}: panics with {len} of {cap} elements: {m}");
                                obs.hit("refused");
                                obs.nontrivial = true;
                            }
                        }
                    }
                    REMOVE => {
                        let at = r.a as usize % 12;
                        let g = buf.remove(at);
                        let w = (at < len).then(|| model.remove(at));
                        ensure!(
                            g.as_ref().map(|e| get(e).uid) == w,
                            "{what}: gives {:?}, should be {w:?}",
                            g.as_ref().map(|e| get(e).uid)
                        );
                        if let Some(e) = g {
                            ensure!(un(e).intact(), "LEDGER: {what}: removed element is not live");
                        }
                    }
                    APPEND => {
                        let mut other = $typed;
                        let mut theirs = vec![];
                        for _ in 0..(r.b as usize % L as usize).min(cap) {
                            let i = fresh();
                            theirs.push(i.uid);
                            other.push(mk(i));
                        }
                        let k = theirs.len();
                        match panics(|| buf.append(&mut other)) {
                            Ok(()) => {
                                ensure!(len + k <= cap, "{what}: appending {k} to {len} elements succeeds");
                                model.extend(theirs);
                                ensure!(other.is_empty(), "{what}: the other buffer keeps {} elements", other.len());
                                obs.hit("appends");
                            }
                            Err(m) => {
                                ensure!(len + k > cap, "{what}: appending {k} to {len} elements panics: {m}");
                                drop(other);
                                let mut may = model.clone();
                                may.extend(theirs);
                                let old = model.clone();
                                resync!(what.clone(), may);
                                ensure!(model.starts_with(&old), "{what}: refused, but the contents changed");
                                ensure!(lost == 0 || lost_ok(c), "LEDGER: {what}: {lost} elements leaked");
                                obs.hit("refused");
                                obs.nontrivial = true;
                            }
                        }
                    }
                    DRAIN => {
                        let d = Dr::of(r);
                        let start = d.start.min(len);
                        let end = (start + d.count).min(len);
                        if d.mode == M_BEYOND {
                            let past = len + 1 + d.count;
                            match panics(|| {
                                let mut x = buf.drain(d.range(start, past));
                                (x.next().is_some(), x.next_back().is_some())
                            }) {
                                Ok(_) => return Err(format!("{what}: draining {start}..{past} of {len} elements is accepted")),
                                Err(_) => {
                                    obs.hit("refused");
                                    obs.nontrivial = true;
                                }
                            }
                        } else {
                            let mut left: std::collections::VecDeque<u64> = model[start..end].iter().copied().collect();
                            let mut it = buf.drain(d.range(start, end));
                            let mut taken = vec![];
                            let (mut f, mut b) = (d.front, d.back);
                            if d.mode == M_EXHAUST {
                                // everything, and then some
                                if f == 0 && b == 0 {
                                    f = left.len() + 2
                                } else {
                                    f = if f > 0 { left.len() + 1 } else { 0 };
                                    b = left.len() + 1;
                                }
                            }
                            let mut turn = 0;
                            while f + b > 0 {
                                ensure!(
                                    it.size_hint() == (left.len(), Some(left.len())) && it.len() == left.len(),
                                    "{what}: size_hint() is {:?} with {} elements left",
                                    it.size_hint(),
                                    left.len()
                                );
                                turn += 1;
                                let front = if f == 0 { false } else if b == 0 { true } else if d.mixed { turn % 2 == 0 } else { true };
                                let (g, w) = if front {
                                    f -= 1;
                                    (it.next(), left.pop_front())
                                } else {
                                    b -= 1;
                                    (it.next_back(), left.pop_back())
                                };
                                ensure!(
                                    g.as_ref().map(|e| get(e).uid) == w,
                                    "{what}: drain gives {:?}, should be {w:?}",
                                    g.as_ref().map(|e| get(e).uid)
                                );
                                if let Some(e) = g {
                                    let i = un(e);
                                    ensure!(i.intact(), "LEDGER: {what}: drained element is not live");
                                    taken.push(i);
                                }
                            }
                            let gone: Vec<u64> = taken.iter().map(|i| i.uid).collect();
                            drop(taken);
                            let rest: Vec<u64> = model.iter().copied().filter(|u| !gone.contains(u)).collect();
                            match d.mode {
                                M_LEAK => {
                                    std::mem::forget(it);
                                    obs.hit("leaked drains");
                                    resync!(what.clone(), rest);
                                }
                                M_PANIC => {
                                    ledger::set_drop_fuse(Some(d.bounds as u64 % 3));
                                    let fired = panics(move || drop(it)).is_err();
                                    ledger::set_drop_fuse(None);
                                    if fired {
                                        obs.hit("panicking drains");
                                        resync!(what.clone(), rest);
                                    } else {
                                        model.drain(start..end);
                                    }
                                }
                                M_CALL => {
                                    let (how, n) = (r.b / 200, (r.b / 200) as usize / 64 % 5);
                                    let id = |e: &_| get(e).uid;
                                    let mut left: std::vec::IntoIter<u64> = left.into_iter().collect::<Vec<_>>().into_iter();
                                    let (g, w) = if how % 2 == 0 {
                                        let g = iters::part(&mut it, how / 2, n, id);
                                        let w = iters::part(&mut left, how / 2, n, |x| *x);
                                        ensure!(it.len() == left.len(), "{what}: len() is {} with {} elements left", it.len(), left.len());
                                        drop(it);
                                        (g, w)
                                    } else {
                                        (iters::rest(it, how / 2, n, id), iters::rest(left, how / 2, n, |x| *x))
                                    };
                                    ensure!(g == w, "{what}: call {} with {n} on the drain gives {g:?}, should give {w:?}", how / 2);
                                    model.drain(start..end);
                                    obs.hit("drains by other calls");
                                }
                                _ => {
                                    drop(it);
                                    model.drain(start..end);
                                    obs.hit("drains");
                                }
                            }
                        }
                    }
                    CLEAR => {
                        if r.b % 2 == 1 && len > 0 {
                            ledger::set_drop_fuse(Some(r.a as u64 % len as u64));
                            let fired = panics(|| buf.clear()).is_err();
                            ledger::set_drop_fuse(None);
                            ensure!(fired, "{what}: clear() of {len} elements did not drop them all");
                            resync!(what.clone(), model.clone());
                        } else {
                            buf.clear();
                            model.clear();
                        }
                    }
                    CLONE => {
                        #[allow(unused_mut)]
                        if let Some(mut copy) = ($clone)(&buf) {
                            ensure!(copy.len() == len, "{what}: the clone has {} elements, should have {len}", copy.len());
                            for (x, y) in buf.iter().zip(copy.iter()) {
                                let (x, y) = (get(x), get(y));
                                ensure!(y.intact(), "LEDGER: {what}: the clone holds something that is not a live element");
                                ensure!(x.key == y.key && x.uid != y.uid, "{what}: element {} is cloned as {}", x.key, y.key);
                            }
                            settled(2 * len, lost, &what)?;
                            if r.b % 2 == 1 {
                                std::mem::swap(&mut buf, &mut copy);
                                model = uids!(buf);
                            }
                            drop(copy);
                            obs.hit("clones");
                        }
                    }
                    COLLECT => {
                        let old = std::mem::replace(&mut buf, $typed);
                        buf = if r.a % 2 == 0 { old.into_iter().collect() } else { old.into_iter().rev().collect() };
                        if r.a % 2 == 1 {
                            model.reverse();
                        }
                    }
                    EXTEND => {
                        let k = r.b as usize % 6;
                        let new: Vec<It> = (0..k).map(|_| fresh()).collect();
                        let theirs: Vec<u64> = new.iter().map(|i| i.uid).collect();
                        match panics(|| buf.extend(new.into_iter().map(mk))) {
                            Ok(()) => {
                                ensure!(len + k <= cap, "{what}: extending {len} elements by {k} succeeds");
                                model.extend(theirs);
                            }
                            Err(m) => {
                                ensure!(len + k > cap, "{what}: extending {len} elements by {k} panics: {m}");
                                let mut may = model.clone();
                                may.extend(theirs);
                                let old = model.clone();
                                resync!(what.clone(), may);
                                ensure!(model.starts_with(&old), "{what}: refused, but the contents changed");
                                ensure!(lost == 0 || lost_ok(c), "LEDGER: {what}: {lost} elements leaked");
                                obs.hit("refused");
                                obs.nontrivial = true;
                            }
                        }
                    }
                    INDEX => {
                        for i in 0..12 {
                            let w = model.get(i).copied();
                            ensure!(buf.get(i).map(|e| get(e).uid) == w, "{what}: get({i}) is wrong");
                            ensure!(buf.get_mut(i).map(|e| get(e).uid) == w, "{what}: get_mut({i}) is wrong");
                            ensure!(buf.as_slice().get(i).map(|e| get(e).uid) == w, "{what}: as_slice()[{i}] is wrong");
                            ensure!(buf.as_slice_mut().get(i).map(|e| get(e).uid) == w, "{what}: as_slice_mut()[{i}] is wrong");
                            match panics(|| get(&buf[i]).uid) {
                                Ok(u) => ensure!(Some(u) == w, "{what}: [{i}] is {u}, should be {w:?}"),
                                Err(_) => ensure!(w.is_none(), "{what}: [{i}] panics with {len} elements"),
                            }
                        }
                        ensure!((&buf).into_iter().map(|e| get(e).uid).eq(model.iter().copied()), "{what}: iteration is wrong");
                        ensure!(buf.first().map(|e| get(e).uid) == model.first().copied(), "{what}: first() is wrong");
                        ensure!(buf.last().map(|e| get(e).uid) == model.last().copied(), "{what}: last() is wrong");
                        if r.b % 2 == 1 {
                            buf.reverse();
                            model.reverse();
                        } else if len > 0 {
                            buf.as_slice_mut().rotate_left(r.a as usize % len);
                            model.rotate_left(r.a as usize % len);
                        }
                    }
                    INTO_ITER => {
                        let old = std::mem::replace(&mut buf, $typed);
                        let mut left: std::collections::VecDeque<u64> = model.drain(..).collect();
                        let mut it = old.into_iter();
                        let mut bits = r.a | r.b << 5;
                        for _ in 0..(r.a as usize % 12) {
                            ensure!(
                                it.size_hint() == (left.len(), Some(left.len())) && it.len() == left.len(),
                                "{what}: size_hint() is {:?} with {} elements left",
                                it.size_hint(),
                                left.len()
                            );
                            bits = bits.wrapping_mul(0x9E3779B1) >> 1;
                            let (g, w) =
                                if bits >> 12 & 1 == 0 { (it.next(), left.pop_front()) } else { (it.next_back(), left.pop_back()) };
                            ensure!(
                                g.as_ref().map(|e| get(e).uid) == w,
                                "{what}: the consuming iterator gives {:?}, should be {w:?}",
                                g.as_ref().map(|e| get(e).uid)
                            );
                            if let Some(e) = g {
                                ensure!(un(e).intact(), "LEDGER: {what}: iterated element is not live");
                            }
                        }
                        if r.b % 4 == 3 {
                            // dropped with a panicking destructor: what is not dropped is lost, nothing is dropped twice
                            ledger::set_drop_fuse(Some(r.b as u64 / 4));
                            let fired = panics(move || drop(it)).is_err();
                            ledger::set_drop_fuse(None);
                            if fired {
                                resync!(what.clone(), vec![]);
                            }
                        } else if r.b % 4 != 0 {
                            let (how, n) = (r.a * 16 + r.b, r.a as usize % 5);
                            let id = |e: &_| get(e).uid;
                            let mut left: std::vec::IntoIter<u64> = left.into_iter().collect::<Vec<_>>().into_iter();
                            let (g, w) = if r.b % 4 == 1 {
                                let g = iters::part(&mut it, how, n, id);
                                let w = iters::part(&mut left, how, n, |x| *x);
                                ensure!(it.len() == left.len(), "{what}: len() is {} with {} elements left", it.len(), left.len());
                                drop(it);
                                (g, w)
                            } else {
                                (iters::rest(it, how, n, id), iters::rest(left, how, n, |x| *x))
                            };
                            ensure!(g == w, "{what}: call {how} with {n} gives {g:?}, should give {w:?}");
                            obs.hit("consumed by other calls");
                        } else {
                            drop(it);
                        }
                        settled(0, lost, &what)?;
                        // refill
                        for _ in 0..len.min(3) {
                            let i = fresh();
                            model.push(i.uid);
                            buf.push(mk(i));
                        }
                    }
                    PARTS => {
                        let old = std::mem::replace(&mut buf, $typed);
                        let (n, parts) = old.into_raw_parts();
                        ensure!(n == len && parts.len() == cap, "{what}: into_raw_parts() tells {n} elements of {}", parts.len());
                        settled(len, lost, &what)?;
                        for (i, x) in parts.into_iter().enumerate() {
                            if i < n {
                                // SAFETY: the first `n` elements are initialised
                                buf.push(unsafe { x.assume_init() });
                            }
                        }
                    }
                    _ => {
                        let old = std::mem::replace(&mut buf, $typed);
                        let u = ($node)(old);
                        ensure!(u == model, "{what}: the node holds elements {u:?}, should hold {model:?}");
                        model.clear();
                        settled(0, lost, &what)?;
                    }
                }
                same!(what);
            }
            let len = model.len();
            if c.p(2) / 2 % 2 == 1 {
                ledger::set_drop_fuse(Some(len as u64 / 2));
                let _ = panics(move || drop(buf));
                ledger::set_drop_fuse(None);
                ledger::check().map_err(|e| format!("dropping the buffer: {e}"))?;
            } else {
                drop(buf);
                settled(0, lost, "dropping the buffer")?;
            }
            let _ = lost_ok(c);
            Ok(())
        }
    };
}

/// Elements may have been lost before: a drain was leaked or unwound.
fn lost_ok(c: &Case) -> bool {
    c.recs.iter().any(|r| match r.k % NOPS {
        DRAIN => matches!(Dr::of(r).mode, M_LEAK | M_PANIC),
        CLEAR => r.b % 2 == 1,
        INTO_ITER => r.b % 4 == 3,
        _ => false,
    })
}

fn cloned<A: Clone>(a: &A) -> Option<A> {
    Some(a.clone())
}
fn no_clone<A>(_: &A) -> Option<A> {
    None
}
fn item_of(i: &It) -> &It {
    i
}
fn item_in(b: &Branch<It, S>) -> &It {
    assert!(std::ptr::eq(b.as_ref(), &b.item), "a branch refers to some other item than its own");
    &b.item
}

machine!(
    leaf,
    typed2(LeafNode::<It, S>::new, Default::default()),
    M + 1,
    |i: It| i,
    item_of,
    |i: It| i,
    cloned,
    |b| {
        let n = LeafNode::<It, S>::new(None, b);
        n.items().iter().map(|i| i.uid).collect::<Vec<u64>>()
    }
);
machine!(
    internal,
    typed3(InternalNode::<It, S>::new, Default::default()),
    M,
    |i: It| Branch { item: i, child: SId::fake(1) },
    item_in,
    |b: Branch<It, S>| b.item,
    no_clone,
    |b| {
        let n = InternalNode::<It, S>::new(None, SId::fake(0), b);
        n.branches().iter().map(|b| b.item.uid).collect::<Vec<u64>>()
    }
);
