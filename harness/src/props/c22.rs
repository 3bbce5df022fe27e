//! C22: one history, many item types: same shapes, positions and items as with plain integers; layout of the items.
use super::*;
use crate::gen::ensure;
use crate::ledger::{It, Peek};
use crate::store::Store;
use crate::walk::{self, Pos};
use raw_btree::{RawBTree, Storage};
use std::cell::Cell;

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "the item type is not the reference integer and the history splits and merges at least one node each",
        phases: |t| {
            vec![
                ph("histories over thirty item types", Exe::Checked, 0, n(t, 1_000_000)),
                ph("histories over thirty item types, shipped configuration", Exe::Ship, 0, n(t, 600_000)),
            ]
        },
        enumerate: no_enum,
        gen: |r, _, _| generate(r),
        run,
        describe,
    }
}

// params: 0 storage, 1 type, 2 universe, 3 keyed, 4 end, 5 front, 6 back
const INS: u32 = 0;
const REM: u32 = 1;
const REP: u32 = 2;
const KINS: u32 = 3;
const KREM: u32 = 4;
const KGET: u32 = 5;
const ITER: u32 = 6;
const CLONE: u32 = 7;
const WRITE: u32 = 8;
const CLEAR: u32 = 9;
const ENDS: u32 = 10;
const SEARCH: u32 = 11;
const NTYPES: u32 = 30;

pub fn generate(r: &mut Rng) -> Case {
    let keyed = r.chance(1, 3) as u32;
    let univ = r.pick(&[10, 60, 200, 1000, 1 << 30]);
    let mut c = Case {
        params: vec![r.below(5), r.below(NTYPES), univ, keyed, r.below(5), r.below(60), r.below(60)],
        recs: vec![],
    };
    let total = r.pick(&[6, 30, 80, 200, 300]);
    let total = r.range(1, total);
    let mut w = [8, 4];
    let mut cursor = 0;
    let mut local = false;
    while (c.recs.len() as u32) < total {
        if r.chance(1, 30) {
            w = r.pick(&[[8, 2], [2, 8], [5, 5], [1, 12]]);
            local = r.chance(1, 2);
            cursor = r.below(100);
        }
        cursor += r.below(2);
        let a = if local { cursor } else { r.u32() >> 4 };
        c.recs.push(match r.weighted(&[w[0], w[1], 2]) {
            0 => rec(if keyed == 1 { KINS } else { INS }, a, r.u32() >> 4),
            1 => rec(if keyed == 1 && r.chance(1, 2) { KREM } else { REM }, a, 0),
            _ => match r.below(12) {
                0..=2 => rec(REP, a, r.u32() >> 4),
                3..=5 => rec(KGET, a, 0),
                6 => rec(ITER, r.below(50), r.below(50)),
                7 => rec(CLONE, r.below(2), 0),
                8 => rec(WRITE, r.u32() >> 8, 0),
                9 | 10 => rec(SEARCH, r.u32(), r.below(8)),
                _ if r.chance(1, 4) => rec(CLEAR, 0, 0),
                _ => rec(ENDS, 0, 0),
            },
        });
    }
    c
}

pub fn describe(c: &Case) -> String {
    let n = ["insert_at", "remove_at", "replace_at", "insert", "remove", "get", "iterate", "clone", "write", "clear", "ends", "search"];
    let mut s = format!(
        "storage={} type={} {} universe={} end={:?}:",
        c.p(0) % 5,
        NAMES[(c.p(1) % NTYPES) as usize],
        if c.p(3) % 2 == 1 { "keyed" } else { "positional" },
        c.p(2),
        c.params.get(4..7)
    );
    for r in &c.recs {
        s.push_str(&format!(" {}({},{})", n.get(r.k as usize).unwrap_or(&"-"), r.a, r.b));
    }
    s
}
const NAMES: [&str; NTYPES as usize] = [
    "()", "counted zero-sized", "u8", "[u8; 3]", "u64", "[u64; 33]", "align(64)", "Box<u64>", "String", "tracked", "(u8, u32)",
    "align(64) zero-sized", "[u8; 2]", "[u8; 4]", "[u8; 5]", "[u8; 6]", "[u8; 7]", "[u8; 9]", "[u8; 12]", "[u8; 13]", "[u8; 17]", "[u8; 31]",
    "u16", "[u16; 3]", "[u16; 5]", "[u32; 3]", "u128", "Rc<u64>", "Option<Box<u64>>", "Vec<u16>",
];

// ------------------------------------------------------------------ types

pub trait Ty: Sized + Clone + 'static {
    /// The part of a code the type can hold.
    const MASK: u64;
    fn make(code: u64) -> Self;
    /// None if the value is not one that `make` builds.
    fn code(&self) -> Option<u64>;
}
impl Ty for () {
    const MASK: u64 = 0;
    fn make(_: u64) {}
    fn code(&self) -> Option<u64> {
        Some(0)
    }
}
pub struct Zst;
thread_local! {
    static ZLIVE: Cell<i64> = const { Cell::new(0) };
}
impl Clone for Zst {
    fn clone(&self) -> Self {
        Zst::make(0)
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        ZLIVE.with(|z| z.set(z.get() - 1))
    }
}
impl Ty for Zst {
    const MASK: u64 = 0;
    fn make(_: u64) -> Self {
        ZLIVE.with(|z| z.set(z.get() + 1));
        Zst
    }
    fn code(&self) -> Option<u64> {
        Some(0)
    }
}
#[derive(Clone)]
#[repr(align(64))]
pub struct AZst;
impl Ty for AZst {
    const MASK: u64 = 0;
    fn make(_: u64) -> Self {
        AZst
    }
    fn code(&self) -> Option<u64> {
        Some(0)
    }
}
impl Ty for u8 {
    const MASK: u64 = 0xff;
    fn make(c: u64) -> Self {
        c as u8
    }
    fn code(&self) -> Option<u64> {
        Some(*self as u64)
    }
}
/// The code in as many words as it takes, then words that depend on all of it.
macro_rules! words {
    ($w:ty, $bits:expr, $($n:expr)*) => { $(
        impl Ty for [$w; $n] {
            const MASK: u64 = if $n * $bits > 48 { 0xffff_ffff } else { u64::MAX >> (64 - ($n + 1) / 2 * $bits) };
            fn make(c: u64) -> Self {
                let used = ($n + 1) / 2 * $bits;
                std::array::from_fn(|i| {
                    if i * $bits < used.min(64) { (c >> (i * $bits)) as $w } else { (c.wrapping_add(i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 32) as $w }
                })
            }
            fn code(&self) -> Option<u64> {
                let used: usize = (($n + 1) / 2 * $bits).min(64);
                let c = (0..$n).filter(|i| i * $bits < used).fold(0, |c, i| c | (self[i] as u64) << (i * $bits));
                (c & Self::MASK == c && Self::make(c) == *self).then_some(c)
            }
        }
    )* };
}
words!(u8, 8, 2 3 4 5 6 7 9 12 13 17 31);
words!(u16, 16, 3 5);
words!(u32, 32, 3);
impl Ty for u16 {
    const MASK: u64 = 0xffff;
    fn make(c: u64) -> Self {
        c as u16
    }
    fn code(&self) -> Option<u64> {
        Some(*self as u64)
    }
}
impl Ty for u128 {
    const MASK: u64 = u64::MAX;
    fn make(c: u64) -> Self {
        c as u128 | (!c as u128) << 64
    }
    fn code(&self) -> Option<u64> {
        ((*self >> 64) as u64 == !(*self as u64)).then_some(*self as u64)
    }
}
impl Ty for std::rc::Rc<u64> {
    const MASK: u64 = u64::MAX;
    fn make(c: u64) -> Self {
        c.into()
    }
    fn code(&self) -> Option<u64> {
        Some(**self)
    }
}
impl Ty for Option<Box<u64>> {
    const MASK: u64 = u64::MAX;
    fn make(c: u64) -> Self {
        (c > 0).then(|| Box::new(c))
    }
    fn code(&self) -> Option<u64> {
        Some(self.as_ref().map_or(0, |b| **b))
    }
}
impl Ty for Vec<u16> {
    const MASK: u64 = 0xffff_ffff;
    fn make(c: u64) -> Self {
        (0..2 + c as usize % 3).map(|i| (c >> (16 * (i % 2))) as u16).collect()
    }
    fn code(&self) -> Option<u64> {
        let c = *self.first()? as u64 | (*self.get(1)? as u64) << 16;
        (*self == Self::make(c)).then_some(c)
    }
}
impl Ty for u64 {
    const MASK: u64 = u64::MAX;
    fn make(c: u64) -> Self {
        c
    }
    fn code(&self) -> Option<u64> {
        Some(*self)
    }
}
impl Ty for [u64; 33] {
    const MASK: u64 = u64::MAX;
    fn make(c: u64) -> Self {
        std::array::from_fn(|i| c.wrapping_add(i as u64))
    }
    fn code(&self) -> Option<u64> {
        (0..33).all(|i| self[i] == self[0].wrapping_add(i as u64)).then_some(self[0])
    }
}
#[derive(Clone)]
#[repr(align(64))]
pub struct A64(u64, u8);
impl Ty for A64 {
    const MASK: u64 = u64::MAX;
    fn make(c: u64) -> Self {
        A64(c, c as u8 ^ 0x3c)
    }
    fn code(&self) -> Option<u64> {
        (self.1 == self.0 as u8 ^ 0x3c).then_some(self.0)
    }
}
impl Ty for Box<u64> {
    const MASK: u64 = u64::MAX;
    fn make(c: u64) -> Self {
        Box::new(c)
    }
    fn code(&self) -> Option<u64> {
        Some(**self)
    }
}
impl Ty for String {
    const MASK: u64 = u64::MAX;
    fn make(c: u64) -> Self {
        format!("item {c}")
    }
    fn code(&self) -> Option<u64> {
        self.strip_prefix("item ").and_then(|s| s.parse().ok())
    }
}
impl Ty for It {
    const MASK: u64 = u64::MAX;
    fn make(c: u64) -> Self {
        It::new(c, c % 2 == 0)
    }
    fn code(&self) -> Option<u64> {
        self.intact().then_some(self.key)
    }
}
impl Ty for (u8, u32) {
    const MASK: u64 = u32::MAX as u64;
    fn make(c: u64) -> Self {
        (c as u8 ^ 0x77, c as u32)
    }
    fn code(&self) -> Option<u64> {
        (self.0 == self.1 as u8 ^ 0x77).then_some(self.1 as u64)
    }
}

/// The item: any of the types, seen by the structural walk through its code.
#[derive(Clone)]
#[repr(transparent)]
pub struct W<X: Ty>(X);
impl<X: Ty> Peek for W<X> {
    fn key(&self) -> u64 {
        self.0.code().unwrap_or(u64::MAX)
    }
    fn uid(&self) -> u64 {
        self.key()
    }
    fn ok(&self) -> Result<(), String> {
        self.0.code().map(|_| ()).ok_or_else(|| "the tree holds something that is not an item".into())
    }
}
fn code<X: Ty>(w: &W<X>) -> Result<u64, String> {
    match w.0.code() {
        Some(c) => Ok(c),
        None => Err("what the tree returned is not an item of the type".into()),
    }
}

// ------------------------------------------------------------------ run

macro_rules! with_ty {
    ($sel:expr, $m:ident $(, $a:expr)*) => {
        match $sel % NTYPES {
            0 => $m!(() $(, $a)*),
            1 => $m!(Zst $(, $a)*),
            2 => $m!(u8 $(, $a)*),
            3 => $m!([u8; 3] $(, $a)*),
            4 => $m!(u64 $(, $a)*),
            5 => $m!([u64; 33] $(, $a)*),
            6 => $m!(A64 $(, $a)*),
            7 => $m!(Box<u64> $(, $a)*),
            8 => $m!(String $(, $a)*),
            9 => $m!(It $(, $a)*),
            10 => $m!((u8, u32) $(, $a)*),
            11 => $m!(AZst $(, $a)*),
            12 => $m!([u8; 2] $(, $a)*),
            13 => $m!([u8; 4] $(, $a)*),
            14 => $m!([u8; 5] $(, $a)*),
            15 => $m!([u8; 6] $(, $a)*),
            16 => $m!([u8; 7] $(, $a)*),
            17 => $m!([u8; 9] $(, $a)*),
            18 => $m!([u8; 12] $(, $a)*),
            19 => $m!([u8; 13] $(, $a)*),
            20 => $m!([u8; 17] $(, $a)*),
            21 => $m!([u8; 31] $(, $a)*),
            22 => $m!(u16 $(, $a)*),
            23 => $m!([u16; 3] $(, $a)*),
            24 => $m!([u16; 5] $(, $a)*),
            25 => $m!([u32; 3] $(, $a)*),
            26 => $m!(u128 $(, $a)*),
            27 => $m!(std::rc::Rc<u64> $(, $a)*),
            28 => $m!(Option<Box<u64>> $(, $a)*),
            _ => $m!(Vec<u16> $(, $a)*),
        }
    };
}
macro_rules! same {
    ($x:ty, $c:expr, $obs:expr) => {
        same::<$x>($c, $obs)
    };
}
macro_rules! alive {
    ($x:ty, $c:expr) => {
        on_stores::<$x>($c, <$x as Ty>::MASK, &mut vec![])
    };
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    with_ty!(c.p(1), same, c, obs)
}

fn on_stores<X: Ty>(c: &Case, mask: u64, t: &mut Vec<u64>) -> Result<(), String> {
    use crate::store::{Slab, FRESH, LIFO, MOVING, SELF};
    match c.p(0) % 5 {
        0 => life::<X, raw_btree::storage::BoxStorage>(c, mask, t),
        _ if c.p(1) % NTYPES >= 12 => life::<X, Slab<W<X>, { FRESH }>>(c, mask, t),
        1 => life::<X, Slab<W<X>, { FRESH }>>(c, mask, t),
        2 => life::<X, Slab<W<X>, { LIFO }>>(c, mask, t),
        3 => life::<X, Slab<W<X>, { SELF }>>(c, mask, t),
        _ => life::<X, Slab<W<X>, { MOVING }>>(c, mask, t),
    }
}

fn same<X: Ty>(c: &Case, obs: &mut Obs) -> Result<(), String> {
    // the reference: integers on a tracked storage
    let mut want = vec![];
    life::<u64, crate::store::Slab<W<u64>, { crate::store::FRESH }>>(c, X::MASK, &mut want)
        .map_err(|e| format!("with plain integers: {e}"))?;
    let (a, r) = (crate::fuel::allocs(), crate::fuel::releases());
    if c.p(0) % 5 == 0 {
        // the default storage cannot be instrumented; run the type on a tracked one first
        let mut got = vec![];
        life::<X, crate::store::Slab<W<X>, { crate::store::FRESH }>>(c, X::MASK, &mut got)?;
        compare(&got, &want)?;
    }
    let mut got = vec![];
    on_stores::<X>(c, X::MASK, &mut got)?;
    compare(&got, &want)?;
    obs.hit(NAMES[(c.p(1) % NTYPES) as usize]);
    obs.add("operations", c.recs.len() as u64);
    let merged = r > 0 && c.recs.iter().any(|r| r.k == REM || r.k == KREM);
    obs.nontrivial |= c.p(1) % NTYPES != 4 && a > 3 && merged;
    Ok(())
}

fn compare(got: &[u64], want: &[u64]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!(
        "observation {i} of the history is {:?} with this item type, {:?} with plain integers",
        got.get(i),
        want.get(i)
    ))
}

/// Ownership and memory balance for one item type.
pub fn balance(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let zsts = ZLIVE.with(|z| z.get());
    super::c06::balanced(|| {
        fresh_slate();
        with_ty!(c.p(1), alive, c)?;
        crate::ledger::check()?;
        ensure!(crate::ledger::count_live() == 0, "LEDGER: {} items are alive at the end", crate::ledger::count_live());
        let z = ZLIVE.with(|z| z.get()) - zsts;
        ensure!(z == 0, "LEDGER: {z} zero-sized items too many were created or dropped");
        Ok(0)
    })?;
    obs.hit(NAMES[(c.p(1) % NTYPES) as usize]);
    obs.nontrivial |= c.p(1) % NTYPES != 4 && c.recs.len() > 20;
    Ok(())
}

fn step(len: usize) -> u64 {
    crate::fuel::for_len(len)
}

fn snapshot<X: Ty, S: Store<W<X>>>(t: &RawBTree<W<X>, S>, trace: &mut Vec<u64>) -> Result<Vec<u64>, String> {
    let s = walk::snap(t)?;
    trace.push(s.shape_hash());
    trace.push(t.len() as u64);
    let codes: Vec<u64> = s.items().iter().map(|i| i.0).collect();
    let mut h = crate::case::Fnv::new();
    for k in &codes {
        h.u64(*k);
    }
    trace.push(h.0);
    Ok(codes)
}

fn place<X: Ty, S: Store<W<X>>>(
    t: &RawBTree<W<X>, S>,
    a: Option<raw_btree::node::Address<S::Node>>,
    trace: &mut Vec<u64>,
) -> Result<(), String> {
    let s = walk::snap(t)?;
    match a {
        None => trace.push(0),
        Some(a) => match s.find(a) {
            Some(p) => {
                trace.push(1 + p.node as u64);
                trace.push((p.off + 1) as u64)
            }
            None => return Err("an address returned is not valid in the tree".into()),
        },
    }
    Ok(())
}

/// Every reference is aligned; items of a sized type do not overlap.
fn layout<'a, X: Ty>(items: impl Iterator<Item = &'a W<X>>) -> Result<(), String> {
    let (size, align) = (std::mem::size_of::<W<X>>(), std::mem::align_of::<W<X>>());
    let mut at: Vec<usize> = items.map(|i| i as *const W<X> as usize).collect();
    for a in &at {
        ensure!(a % align == 0, "a reference to an item is at {:#x}, not aligned to {align}", a);
    }
    if size > 0 {
        at.sort_unstable();
        for w in at.windows(2) {
            ensure!(w[1] - w[0] >= size, "two items overlap in memory");
        }
    }
    Ok(())
}

fn life<X: Ty, S: Storage<W<X>> + Store<W<X>>>(c: &Case, mask: u64, trace: &mut Vec<u64>) -> Result<(), String> {
    let mut t: RawBTree<W<X>, S> = RawBTree::new();
    let univ = c.p(2).max(1);
    let keyed = c.p(3) % 2 == 1;
    let make = |b: u32| W(X::make((b % univ) as u64 & mask));
    let cmp = |a: &W<X>, b: &W<X>| {
        crate::fuel::cmp();
        a.key().cmp(&b.key())
    };
    let cmpk = |a: &W<X>, b: &u64| {
        crate::fuel::cmp();
        a.key().cmp(b)
    };
    for (i, r) in c.recs.iter().enumerate() {
        let n = t.len();
        trace.push(1000 + r.k as u64);
        let res: Result<(), String> = crate::fuel::with(step(n) + 200 * n as u64, || {
            match r.k {
                INS if !keyed => {
                    let s = walk::snap(&t)?;
                    let back: Vec<Pos> = s.addresses().into_iter().filter(|p| s.is_back(*p)).collect();
                    let at = (!back.is_empty()).then(|| s.addr(back[r.a as usize % back.len()]));
                    let a = unsafe { t.insert_at(at, make(r.b)) };
                    place(&t, a, trace)?;
                }
                REM => {
                    let s = walk::snap(&t)?;
                    let occ: Vec<Pos> = s.addresses().into_iter().filter(|p| s.is_item(*p)).collect();
                    if occ.is_empty() {
                        return Ok(());
                    }
                    let at = s.addr(occ[r.a as usize % occ.len()]);
                    let (item, next) = unsafe { t.remove_at(at) }.ok_or("remove_at of an item gave None")?;
                    trace.push(code(&item)?);
                    place(&t, next, trace)?;
                }
                REP if !keyed => {
                    let s = walk::snap(&t)?;
                    let occ: Vec<Pos> = s.addresses().into_iter().filter(|p| s.is_item(*p)).collect();
                    if occ.is_empty() {
                        return Ok(());
                    }
                    let at = s.addr(occ[r.a as usize % occ.len()]);
                    let old = unsafe { t.replace_at(at, make(r.b)) };
                    trace.push(code(&old)?);
                }
                KINS if keyed => match t.insert(cmp, make(r.a)) {
                    None => trace.push(0),
                    Some(o) => trace.push(1 + code(&o)?),
                },
                KREM if keyed => match t.remove(cmpk, &((r.a % univ) as u64 & mask)) {
                    None => trace.push(0),
                    Some(o) => trace.push(1 + code(&o)?),
                },
                KGET if keyed => {
                    let k = (r.a % univ) as u64 & mask;
                    match t.get(cmpk, &k) {
                        None => trace.push(0),
                        Some(o) => trace.push(1 + code(o)?),
                    }
                    let a = t.address_of(cmpk, &k);
                    trace.push(a.is_ok() as u64);
                    match a {
                        Ok(a) => place(&t, Some(a), trace)?,
                        Err(a) => place(&t, a, trace)?,
                    }
                }
                ITER => {
                    let mut it = t.iter();
                    for _ in 0..r.a {
                        trace.push(it.len() as u64);
                        trace.push(it.next().map(code).transpose()?.map(|c| c + 1).unwrap_or(0));
                    }
                    for _ in 0..r.b {
                        trace.push(it.next_back().map(code).transpose()?.map(|c| c + 1).unwrap_or(0));
                    }
                    trace.push(it.len() as u64);
                    layout::<X>(t.iter())?;
                    let n = t.iter_mut().count();
                    trace.push(n as u64);
                }
                CLONE => {
                    let u = t.clone();
                    snapshot(&u, trace)?;
                    layout::<X>(t.iter().chain(u.iter()))?;
                    if r.a % 2 == 0 {
                        t = u;
                    }
                }
                WRITE if !keyed => {
                    for (j, x) in t.iter_mut().enumerate() {
                        let k = code(x)?;
                        *x = W(X::make(k.wrapping_add(r.a as u64 + j as u64) & 0xffff_ffff & mask));
                    }
                }
                CLEAR => t.clear(),
                SEARCH => {
                    // comparators that do not look at the items: the answers only depend on how often they were asked
                    let calls = Cell::new(0u32);
                    let say = || {
                        crate::fuel::cmp();
                        let i = calls.get();
                        calls.set(i + 1);
                        match r.b % 4 {
                            0 => std::cmp::Ordering::Less,
                            1 => std::cmp::Ordering::Greater,
                            2 => match r.a >> (i % 16) & 1 {
                                0 => std::cmp::Ordering::Less,
                                _ => std::cmp::Ordering::Greater,
                            },
                            _ => match r.a >> (2 * (i % 16)) & 3 {
                                0 => std::cmp::Ordering::Equal,
                                1 => std::cmp::Ordering::Greater,
                                _ => std::cmp::Ordering::Less,
                            },
                        }
                    };
                    let a = t.address_of(|_: &W<X>, _: &()| say(), &());
                    trace.push(calls.get() as u64);
                    trace.push(a.is_ok() as u64);
                    match a {
                        Ok(a) => place(&t, Some(a), trace)?,
                        Err(a) => place(&t, a, trace)?,
                    }
                    calls.set(0);
                    trace.push(t.get(|_: &W<X>, _: &()| say(), &()).map(code).transpose()?.map(|c| c + 1).unwrap_or(0));
                    if !keyed {
                        calls.set(0);
                        match r.b / 4 {
                            0 => {
                                let o = t.insert(|_: &W<X>, _: &W<X>| say(), make(r.a >> 3));
                                trace.push(o.as_ref().map(code).transpose()?.map(|c| c + 1).unwrap_or(0));
                            }
                            _ => {
                                let o = t.remove(|_: &W<X>, _: &()| say(), &());
                                trace.push(o.as_ref().map(code).transpose()?.map(|c| c + 1).unwrap_or(0));
                            }
                        }
                    }
                }
                ENDS => {
                    for x in [t.first(), t.last()] {
                        trace.push(x.map(code).transpose()?.map(|c| c + 1).unwrap_or(0));
                    }
                    for x in [t.first_mut().map(|x| code(x)), t.last_mut().map(|x| code(x))] {
                        trace.push(x.transpose()?.map(|c| c + 1).unwrap_or(0));
                    }
                    trace.push(t.is_empty() as u64);
                    let mut n = 0;
                    t.visit_from_leaves(|_| n += 1);
                    trace.push(n);
                }
                _ => (),
            }
            Ok(())
        });
        res.map_err(|e| format!("step {i}: {e}"))?;
        snapshot(&t, trace).map_err(|e| format!("after step {i}: {e}"))?;
    }
    layout::<X>(t.iter())?;
    let n = t.len();
    crate::fuel::with(step(n) + 1000, || {
        match c.p(4) % 5 {
            0 => drop(t),
            1 => t.clear(),
            e => {
                let mut it = t.into_iter();
                let mut v = vec![];
                for _ in 0..c.p(5) {
                    v.extend(it.next());
                }
                for _ in 0..c.p(6) {
                    v.extend(it.next_back());
                }
                trace.push(it.len() as u64);
                match e {
                    2 => drop(it),
                    3 => v.extend(it.rev()),
                    _ => v.extend(it),
                }
                for x in &v {
                    trace.push(code(x)?);
                }
            }
        }
        Ok(())
    })
}
