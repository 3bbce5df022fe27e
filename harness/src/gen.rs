//! Histories: generation, and the interpreter that applies them to a tree and to the reference model in lock-step.

use crate::case::{Case, Rec, Rng};
use crate::fuel;
use crate::ledger::It;
use crate::obs::Obs;
use crate::store::Store;
use crate::walk::{self, Pos, Snap};
use raw_btree::RawBTree;
use std::cmp::Ordering;

// ------------------------------------------------------------------ parameters shared by history cases

/// params: 0 storage, 1 order, 2 key universe, 3 heap items, 4 check stride, 5.. property specific
pub const P_STORE: usize = 0;
pub const P_ORDER: usize = 1;
pub const P_UNIV: usize = 2;
pub const P_HEAP: usize = 3;
pub const P_EXTRA: usize = 5;

pub const ORDERS: u32 = 4;
/// The total orders used: natural, reversed, scrambled, and a coarse one (keys equivalent in groups of 4).
pub fn ord(kind: u32, a: u64, b: u64) -> Ordering {
    match kind % ORDERS {
        0 => a.cmp(&b),
        1 => b.cmp(&a),
        2 => a.wrapping_mul(0x9E3779B97F4A7C15).cmp(&b.wrapping_mul(0x9E3779B97F4A7C15)),
        _ => (a / 4).cmp(&(b / 4)),
    }
}

// record kinds
pub const INSERT: u32 = 0;
pub const REMOVE_KEY: u32 = 1;
pub const REMOVE_RANK: u32 = 2;
pub const GET: u32 = 3;
pub const GET_RANK: u32 = 4;
pub const ENDS: u32 = 5;
pub const ENDS_MUT: u32 = 6;
pub const REMOVE_END: u32 = 7;
pub const INSERT_RUN: u32 = 8;
pub const REMOVE_RUN: u32 = 9;
pub const REPLACE_RANK: u32 = 10;
pub const CLEAR: u32 = 11;
pub const FORGET: u32 = 12;
pub const INSERT_AT: u32 = 13;
pub const REMOVE_AT: u32 = 14;
pub const REPLACE_AT: u32 = 15;
pub const GET_MUT_RANK: u32 = 16;
/// Inserts a key strictly between the neighbours of gap `a` (natural order only).
pub const INSERT_GAP: u32 = 17;
/// Many insertions at once; `a`: where, `b`: how many.
pub const GROW: u32 = 18;
/// Many removals at once; `a`: where, `b`: how many.
pub const SHRINK: u32 = 19;
pub const NKINDS: u32 = 20;
/// Most operations in one of those.
const BULK: u32 = 8192;
pub const SHAPE_LEAF: u32 = 90;
pub const SHAPE_GROUP: u32 = 91;
/// Kinds from here on are interpreted by the property.
pub const OWN: u32 = 100;

pub fn show_rec(r: &Rec) -> String {
    let n = [
        "insert", "remove", "remove_rank", "get", "get_rank", "first/last", "first/last_mut", "remove_end", "insert_run",
        "remove_run", "replace_rank", "clear", "forget", "insert_at", "remove_at", "replace_at", "get_mut_rank", "insert_gap",
        "grow", "shrink",
    ];
    match r.k {
        SHAPE_LEAF => format!("leaf({})", r.a),
        SHAPE_GROUP => "group".into(),
        k if k < NKINDS => format!("{}({},{})", n[k as usize], r.a, r.b),
        k => format!("op{}({},{})", k, r.a, r.b),
    }
}
pub fn describe(c: &Case) -> String {
    let mut s = format!(
        "storage={} order={} universe={} heap={} extra={:?}:",
        ["boxed", "slab-fresh", "slab-lifo", "slab-self", "slab-moving"][(c.p(P_STORE) % 5) as usize],
        ["natural", "reversed", "scrambled", "coarse"][(c.p(P_ORDER) % ORDERS) as usize],
        c.p(P_UNIV),
        c.p(P_HEAP) % 2,
        &c.params.get(P_EXTRA..).unwrap_or(&[])
    );
    for r in &c.recs {
        s.push(' ');
        s.push_str(&show_rec(r));
    }
    s
}

#[derive(Clone, Copy)]
pub struct HistCfg {
    pub max_ops: u32,
    /// Weights for [keyed, address-based] operations; address-based ones need order-free models.
    pub addressed: bool,
    pub reads: bool,
    pub wipes: bool,
    pub orders: bool,
    pub max_univ: u32,
}
impl Default for HistCfg {
    fn default() -> Self {
        HistCfg { max_ops: 400, addressed: false, reads: true, wipes: true, orders: true, max_univ: 2000 }
    }
}

/// One history in this many starts with a large tree.
const DEEP: u32 = 48;
/// Enough insertions for four levels or more.
pub fn grow(r: &mut Rng) -> Rec {
    let p = r.below(5);
    let n = match p {
        2 => r.range(600, 2500),
        _ => r.range(250, 1400),
    };
    Rec { k: GROW, a: r.below(2000) * 5 + p, b: n }
}

/// Generates the common part of a history case.
pub fn history(r: &mut Rng, cfg: &HistCfg) -> Case {
    // trees of four levels and more, once in a while
    let deep = r.chance(1, DEEP);
    let univ = match r.below(6) {
        _ if deep => r.range(4000, 20_000),
        0 => r.range(4, 16),
        1 => r.range(16, 64),
        2 | 3 => r.range(64, 300),
        _ => r.range(100, cfg.max_univ.max(101)),
    };
    let order = if cfg.orders && r.chance(1, 2) { r.below(ORDERS) } else { 0 };
    let mut c = Case {
        params: vec![r.below(5), order, univ, r.below(2), [1, 1, 1, 3, 10][r.below(5) as usize]],
        recs: vec![],
    };
    if deep {
        c.recs.push(grow(r));
    }
    let total = match r.below(10) {
        0 => r.range(1, 12),
        1..=4 => r.range(10, 80.min(cfg.max_ops.max(10))),
        5..=8 => r.range(40.min(cfg.max_ops), (cfg.max_ops / 2).max(40)),
        _ => r.range(cfg.max_ops / 2, cfg.max_ops),
    };
    let mut cursor = r.below(univ);
    let mut dist = r.below(6);
    // phases: grow / shrink / churn / drain
    let mut phase = 0u32;
    let mut left = r.range(5, 60);
    while (c.recs.len() as u32) < total {
        if left == 0 {
            phase = r.weighted(&[5, 5, 4, 2]);
            left = r.range(5, 80);
            dist = r.below(6);
        }
        left -= 1;
        if deep && r.chance(1, 8) {
            c.recs.push(Rec { k: SHRINK, a: r.below(10_000), b: r.pick(&[3, 10, 30, 100, 300]) });
            continue;
        }
        let mut key = |r: &mut Rng| match dist {
            0 | 1 => r.below(univ),
            2 => {
                cursor = (cursor + 1) % univ;
                cursor
            }
            3 => {
                cursor = (cursor + univ - 1) % univ;
                cursor
            }
            4 => (cursor + r.below(8)) % univ,
            _ => {
                cursor = univ - 1 - cursor.min(univ - 1);
                (cursor + r.below(3)) % univ
            }
        };
        // insert-like, remove-like, read-like
        let w = match phase {
            0 => [20, 4, 3],
            1 => [4, 20, 3],
            2 => [10, 10, 3],
            _ => [1, 40, 1],
        };
        let rec = match r.weighted(&w) {
            0 => match r.below(if cfg.addressed { 16 } else { 10 }) {
                0..=6 => Rec { k: INSERT, a: key(r), b: 0 },
                7 => Rec { k: INSERT_RUN, a: key(r), b: r.below(24) },
                8 => Rec { k: REPLACE_RANK, a: r.u32() >> 8, b: r.below(4) },
                9 => Rec { k: INSERT, a: r.below(univ), b: 0 },
                _ => Rec { k: INSERT_AT, a: r.u32() >> 8, b: r.below(4) },
            },
            1 => match r.below(if cfg.addressed { 16 } else { 10 }) {
                0..=1 => Rec { k: REMOVE_KEY, a: key(r), b: 0 },
                2..=6 => Rec { k: REMOVE_RANK, a: if dist >= 2 { key(r) } else { r.u32() >> 8 }, b: 0 },
                7 => Rec { k: REMOVE_END, a: r.below(2), b: 0 },
                8 => Rec { k: REMOVE_RUN, a: r.u32() >> 8, b: r.below(20) },
                9 => Rec { k: REMOVE_KEY, a: r.below(univ + 2), b: 0 },
                _ => Rec { k: REMOVE_AT, a: r.u32() >> 8, b: r.below(4) },
            },
            _ => {
                if cfg.wipes && r.chance(1, 40) {
                    Rec { k: if r.chance(1, 2) { CLEAR } else { FORGET }, a: 0, b: 0 }
                } else if cfg.addressed && r.chance(1, 4) {
                    Rec { k: REPLACE_AT, a: r.u32() >> 8, b: r.below(4) }
                } else if cfg.reads {
                    Rec { k: r.pick(&[GET, GET_RANK, GET_RANK, ENDS, ENDS_MUT, GET_MUT_RANK]), a: key(r), b: r.below(8) }
                } else {
                    Rec { k: INSERT, a: key(r), b: 0 }
                }
            }
        };
        c.recs.push(rec);
    }
    c
}

// ------------------------------------------------------------------ bounded-exhaustive shapes

/// A target shape (groups of leaf sizes; one group = two levels, or a root leaf) plus one operation.
pub struct ShapeCase {
    pub groups: Vec<Vec<u8>>,
    pub op: Rec,
}

/// All trees of up to `k` leaves of every size, and three-level trees of two or three internal nodes of every size,
/// each with every single edit. `ops` yields the operations for a shape given its number of items.
const MIN: u8 = walk::MIN_ITEMS as u8;
const MAX: u8 = walk::MAX_LEAF as u8;

pub fn shape_cases(max_leaves: usize, ops: &mut dyn FnMut(&[Vec<u8>], usize, &mut Vec<Rec>)) -> Vec<ShapeCase> {
    let mut out = vec![];
    let mut buf = vec![];
    let mut push = |g: Vec<Vec<u8>>, out: &mut Vec<ShapeCase>| {
        let leaves: usize = g.iter().map(|x| x.len()).sum();
        let items: usize = g.iter().flatten().map(|x| *x as usize).sum::<usize>() + leaves - 1;
        buf.clear();
        ops(&g, items, &mut buf);
        for op in &buf {
            out.push(ShapeCase { groups: g.clone(), op: *op });
        }
    };
    for n in 1..=MAX {
        push(vec![vec![n]], &mut out);
    }
    for k in 2..=max_leaves {
        let mut sizes = vec![MIN; k];
        loop {
            push(vec![sizes.clone()], &mut out);
            let mut i = 0;
            while i < k {
                if sizes[i] < MAX {
                    sizes[i] += 1;
                    break;
                }
                sizes[i] = MIN;
                i += 1;
            }
            if i == k {
                break;
            }
        }
    }
    // full root
    for n in [MIN, MIN + 1, MAX] {
        push(vec![vec![n; walk::MAX_CHILDREN]], &mut out);
    }
    for r in 2..=3usize {
        let mut cc = vec![walk::MIN_ITEMS + 1; r];
        loop {
            for base in [MIN, MAX] {
                push(cc.iter().map(|c| vec![base; *c]).collect(), &mut out);
            }
            let mut i = 0;
            while i < r {
                if cc[i] < walk::MAX_CHILDREN {
                    cc[i] += 1;
                    break;
                }
                cc[i] = walk::MIN_ITEMS + 1;
                i += 1;
            }
            if i == r {
                break;
            }
        }
    }
    out
}

impl ShapeCase {
    pub fn to_case(&self, store: u32) -> Case {
        let mut c = Case { params: vec![store, 0, 1000, 0, 1], recs: vec![] };
        for g in &self.groups {
            if self.groups.len() > 1 {
                c.recs.push(Rec { k: SHAPE_GROUP, a: 0, b: 0 });
            }
            for l in g {
                c.recs.push(Rec { k: SHAPE_LEAF, a: *l as u32, b: 0 });
            }
        }
        c.recs.push(self.op);
        c
    }
}

// ------------------------------------------------------------------ the world: tree + model

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Mi {
    pub key: u64,
    pub uid: u64,
    pub val: u64,
}

pub struct World<S: Store<It>> {
    pub tree: RawBTree<It, S>,
    /// Reference: the item sequence.
    pub model: Vec<Mi>,
    pub order: u32,
    pub univ: u64,
    pub heap: bool,
    /// Compare every returned value with the model (otherwise the history only builds a tree).
    pub strict: bool,
    /// uids of items let go by forget()
    pub forgotten: u64,
    pub vals: u64,
    /// What the operations returned, for comparing runs.
    pub trace: Vec<u64>,
}

/// Keys are spread so that a key strictly between two others exists.
pub const SPREAD: u64 = 1 << 24;
const BASE: u64 = 1 << 50;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
pub(crate) use ensure;

impl<S: Store<It>> World<S> {
    pub fn new(c: &Case) -> Self {
        World {
            tree: RawBTree::new(),
            model: vec![],
            order: c.p(P_ORDER) % ORDERS,
            univ: c.p(P_UNIV).clamp(1, 1 << 20) as u64,
            heap: c.p(P_HEAP) % 2 == 1,
            strict: true,
            forgotten: 0,
            vals: 0,
            trace: vec![],
        }
    }

    pub fn key(&self, a: u32) -> u64 {
        if self.order == 3 {
            // coarse order divides by 4: keep neighbouring numbers equivalent
            BASE + (a as u64 % self.univ)
        } else {
            BASE + (a as u64 % self.univ) * SPREAD
        }
    }
    pub fn item(&self, key: u64) -> It {
        It::new(key, self.heap)
    }
    fn fuel(&self) -> u64 {
        fuel::for_len(self.model.len())
    }
    /// Position of `key` in the (sorted) model.
    pub fn find(&self, key: u64) -> Result<usize, usize> {
        let o = self.order;
        self.model.binary_search_by(|m| ord(o, m.key, key))
    }
    pub fn is_sorted(&self) -> bool {
        let o = self.order;
        self.model.windows(2).all(|w| ord(o, w[0].key, w[1].key).is_lt())
    }

    pub fn cmp_key(&self) -> impl Fn(&It, &u64) -> Ordering {
        let o = self.order;
        move |a: &It, k: &u64| {
            fuel::cmp();
            a.touch();
            ord(o, a.key, *k)
        }
    }
    pub fn cmp_item(&self) -> impl Fn(&It, &It) -> Ordering {
        let o = self.order;
        move |a: &It, b: &It| {
            fuel::cmp();
            a.touch();
            b.touch();
            ord(o, a.key, b.key)
        }
    }
    /// Lookup by a key of another, unsized type.
    pub fn cmp_str(&self) -> impl Fn(&It, &str) -> Ordering {
        let o = self.order;
        move |a: &It, k: &str| {
            fuel::cmp();
            a.touch();
            ord(o, a.key, k.parse().unwrap())
        }
    }

    /// Applies one record. `Ok(false)`: the record did nothing here.
    pub fn apply(&mut self, r: &Rec, obs: &mut Obs) -> Result<bool, String> {
        if r.k == GROW || r.k == SHRINK {
            return self.bulk(r, obs);
        }
        let fuel = self.fuel();
        fuel::with(fuel, || self.apply_(r, obs))
    }

    fn apply_(&mut self, r: &Rec, obs: &mut Obs) -> Result<bool, String> {
        match r.k {
            INSERT => {
                let k = self.key(r.a);
                self.insert_key(k, obs)?;
            }
            INSERT_RUN => {
                for i in 0..=(r.b % 32) {
                    let k = self.key(r.a.wrapping_add(i));
                    self.insert_key(k, obs)?;
                }
            }
            INSERT_GAP => {
                if self.order != 0 {
                    return Ok(false);
                }
                let g = r.a as usize % (self.model.len() + 1);
                let Some(k) = self.gap_key(g) else { return Ok(false) };
                self.insert_key(k, obs)?;
            }
            REPLACE_RANK => {
                if self.model.is_empty() {
                    return Ok(false);
                }
                let i = r.a as usize % self.model.len();
                let mut k = self.model[i].key;
                if self.order == 3 {
                    // another key of the same equivalence class
                    k = (k & !3) | (r.b as u64 & 3);
                }
                obs.hit("replacements");
                self.insert_key(k, obs)?;
            }
            REMOVE_KEY => {
                let k = self.key(r.a);
                self.remove_key(k, obs)?;
            }
            REMOVE_RANK => {
                if self.model.is_empty() {
                    return Ok(false);
                }
                let k = self.model[r.a as usize % self.model.len()].key;
                self.remove_key(k, obs)?;
            }
            REMOVE_END => {
                let k = if r.a % 2 == 0 { self.model.first() } else { self.model.last() };
                let Some(k) = k.map(|m| m.key) else { return Ok(false) };
                self.remove_key(k, obs)?;
            }
            REMOVE_RUN => {
                for _ in 0..=(r.b % 32) {
                    if self.model.is_empty() {
                        break;
                    }
                    let k = self.model[r.a as usize % self.model.len()].key;
                    self.remove_key(k, obs)?;
                }
            }
            GET => {
                let k = self.key(r.a);
                self.get_key(k, r.b)?;
                obs.hit("lookups");
            }
            GET_RANK => {
                if self.model.is_empty() {
                    return Ok(false);
                }
                let k = self.model[r.a as usize % self.model.len()].key;
                self.get_key(k, r.b)?;
                obs.hit("lookups");
            }
            GET_MUT_RANK => {
                let k = match r.b % 4 {
                    0 => self.key(r.a),
                    _ if self.model.is_empty() => return Ok(false),
                    _ => self.model[r.a as usize % self.model.len()].key,
                };
                self.get_mut_key(k)?;
                obs.hit("mutable lookups");
            }
            ENDS => {
                let f = self.tree.first().map(|i| i.uid);
                let l = self.tree.last().map(|i| i.uid);
                if self.strict {
                    let wf = self.model.first().map(|m| m.uid);
                    let wl = self.model.last().map(|m| m.uid);
                    ensure!(f == wf, "first() is item {f:?}, should be {wf:?}");
                    ensure!(l == wl, "last() is item {l:?}, should be {wl:?}");
                }
            }
            ENDS_MUT => {
                self.vals += 1;
                let v = self.vals;
                if let Some(m) = self.tree.first_mut() {
                    m.val = v;
                    let u = m.uid;
                    if self.strict {
                        ensure!(self.model.first().map(|m| m.uid) == Some(u), "first_mut() is not the first item");
                    }
                    if let Some(m) = self.model.first_mut() {
                        m.val = v
                    }
                } else if self.strict {
                    ensure!(self.model.is_empty(), "first_mut() is None on a non-empty tree");
                }
                self.vals += 1;
                let v = self.vals;
                if let Some(m) = self.tree.last_mut() {
                    m.val = v;
                    let u = m.uid;
                    if self.strict {
                        ensure!(self.model.last().map(|m| m.uid) == Some(u), "last_mut() is not the last item");
                    }
                    if let Some(m) = self.model.last_mut() {
                        m.val = v
                    }
                } else if self.strict {
                    ensure!(self.model.is_empty(), "last_mut() is None on a non-empty tree");
                }
            }
            CLEAR => {
                self.tree.clear();
                self.model.clear();
                obs.hit("clears");
            }
            FORGET => {
                self.tree.forget();
                self.forgotten += self.model.len() as u64;
                self.model.clear();
                obs.hit("forgets");
            }
            INSERT_AT | REMOVE_AT | REPLACE_AT => return self.addressed(r, obs),
            _ => return Ok(false),
        }
        Ok(true)
    }

    /// Each of the operations has a budget of its own.
    fn bulk(&mut self, r: &Rec, obs: &mut Obs) -> Result<bool, String> {
        let n = r.b % BULK;
        for i in 0..n {
            let fuel = self.fuel();
            if r.k == GROW {
                let k = match r.a % 5 {
                    0 => r.a / 5 + i,
                    1 => r.a / 5 + n - i,
                    2 => (r.a / 5).wrapping_add(i.wrapping_mul(7919)),
                    // from both ends, and from the middle to both ends
                    3 => r.a / 5 + if i % 2 == 0 { i } else { 2 * n - i },
                    _ => r.a / 5 + if i % 2 == 0 { n + i } else { n - i },
                };
                let k = self.key(k);
                fuel::with(fuel, || self.insert_key(k, obs))?;
            } else {
                let len = self.model.len() as u32;
                if len == 0 {
                    break;
                }
                let at = match r.a % 6 {
                    0 => 0,
                    1 => len - 1,
                    2 => (r.a / 6) % len,
                    3 => (r.a / 6).wrapping_add(i.wrapping_mul(31)) % len,
                    4 => i % len,
                    _ => [0, len - 1][i as usize % 2],
                };
                let k = self.model[at as usize].key;
                fuel::with(fuel, || self.remove_key(k, obs))?;
            }
        }
        obs.add("operations in bulk", n as u64);
        Ok(n > 0)
    }

    pub fn insert_key(&mut self, k: u64, obs: &mut Obs) -> Result<(), String> {
        let item = self.item(k);
        let uid = item.uid;
        let cmp = self.cmp_item();
        let got = self.tree.insert(cmp, item);
        self.trace.push(got.as_ref().map(|g| g.uid + 1).unwrap_or(0));
        match self.find(k) {
            Ok(i) => {
                let old = self.model[i];
                self.model[i] = Mi { key: k, uid, val: 0 };
                if self.strict {
                    match &got {
                        Some(g) => ensure!(
                            g.uid == old.uid && g.val == old.val && g.key == old.key && g.intact(),
                            "insert({k}) returned item {g:?}, should have returned the replaced item {}#{}",
                            old.key,
                            old.uid
                        ),
                        None => return Err(format!("insert({k}) returned None although an equivalent item was present")),
                    }
                }
                obs.hit("replacing inserts");
            }
            Err(i) => {
                self.model.insert(i, Mi { key: k, uid, val: 0 });
                if self.strict {
                    ensure!(got.is_none(), "insert({k}) returned {got:?} although no equivalent item was present");
                }
            }
        }
        Ok(())
    }

    pub fn remove_key(&mut self, k: u64, obs: &mut Obs) -> Result<(), String> {
        let cmp = self.cmp_key();
        let got = self.tree.remove(cmp, &k);
        self.trace.push(got.as_ref().map(|g| g.uid + 1).unwrap_or(0));
        match self.find(k) {
            Ok(i) => {
                let old = self.model.remove(i);
                if self.strict {
                    match &got {
                        Some(g) => ensure!(
                            g.uid == old.uid && g.val == old.val && g.key == old.key && g.intact(),
                            "remove({k}) returned {g:?}, should be {}#{}",
                            old.key,
                            old.uid
                        ),
                        None => return Err(format!("remove({k}) returned None although the item was present")),
                    }
                }
                obs.hit("removals");
            }
            Err(_) => {
                if self.strict {
                    ensure!(got.is_none(), "remove({k}) returned {got:?} although no equivalent item was present");
                }
                obs.hit("misses");
            }
        }
        Ok(())
    }

    pub fn get_key(&self, k: u64, how: u32) -> Result<(), String> {
        let got = match how % 3 {
            0 => self.tree.get(self.cmp_key(), &k),
            1 => {
                let s = k.to_string();
                self.tree.get(self.cmp_str(), s.as_str())
            }
            _ => {
                let o = self.order;
                self.tree.get(
                    move |a: &It, b: &[u64]| {
                        fuel::cmp();
                        a.touch();
                        ord(o, a.key, b[0])
                    },
                    &[k, 1][..],
                )
            }
        };
        if self.strict {
            let want = self.find(k).ok().map(|i| self.model[i]);
            let g = got.map(|g| Mi { key: g.key, uid: g.uid, val: g.val });
            ensure!(g == want, "get({k}) gave {g:?}, should be {want:?}");
        }
        Ok(())
    }

    pub fn get_mut_key(&mut self, k: u64) -> Result<(), String> {
        let cmp = self.cmp_key();
        self.vals += 1;
        let v = self.vals;
        let got = self.tree.get_mut(cmp, &k).map(|g| {
            let o = Mi { key: g.key, uid: g.uid, val: g.val };
            g.val = v;
            o
        });
        let i = self.find(k).ok();
        let want = i.map(|i| self.model[i]);
        if self.strict {
            ensure!(got == want, "get_mut({k}) gave {got:?}, should be {want:?}");
        }
        if let (Some(i), true) = (i, got.is_some()) {
            self.model[i].val = v;
        }
        Ok(())
    }

    pub fn snap(&self) -> Result<Snap<S::Node>, String> {
        walk::snap(&self.tree)
    }

    /// A key strictly between the neighbours of gap g.
    pub fn gap_key(&self, g: usize) -> Option<u64> {
        if self.model.is_empty() {
            return Some(BASE);
        }
        if g == 0 {
            return Some(self.model[0].key.wrapping_sub(SPREAD));
        }
        if g >= self.model.len() {
            return Some(self.model[self.model.len() - 1].key + SPREAD);
        }
        let (a, b) = (self.model[g - 1].key, self.model[g].key);
        if b > a && b - a >= 2 {
            Some(a + (b - a) / 2)
        } else {
            None
        }
    }

    /// Address-based edits as pure builders (C05 checks them in detail): keeps the model in step by position.
    fn addressed(&mut self, r: &Rec, obs: &mut Obs) -> Result<bool, String> {
        let s = self.snap()?;
        let addrs = s.addresses();
        match r.k {
            INSERT_AT => {
                if self.model.is_empty() {
                    let it = self.item(self.key(r.a));
                    let m = Mi { key: it.key, uid: it.uid, val: 0 };
                    unsafe { self.tree.insert_at(None, it) };
                    self.model.push(m);
                    return Ok(true);
                }
                let back: Vec<Pos> = addrs.iter().copied().filter(|p| s.is_back(*p)).collect();
                let p = back[r.a as usize % back.len()];
                let rank = s.rank(&addrs, p);
                // Only insertions that keep the tree sorted (the documented precondition).
                let Some(key) = self.gap_key_sorted(rank) else { return Ok(false) };
                let it = self.item(key);
                let m = Mi { key, uid: it.uid, val: 0 };
                unsafe { self.tree.insert_at(Some(s.addr(p)), it) };
                self.model.insert(rank, m);
                obs.hit("address inserts");
            }
            _ => {
                let items: Vec<Pos> = addrs.iter().copied().filter(|p| s.is_item(*p)).collect();
                if items.is_empty() {
                    return Ok(false);
                }
                let rank = r.a as usize % items.len();
                let p = items[rank];
                if r.k == REMOVE_AT {
                    unsafe { self.tree.remove_at(s.addr(p)) };
                    self.model.remove(rank);
                    obs.hit("address removals");
                } else {
                    let key = self.model[rank].key;
                    let it = self.item(key);
                    let uid = it.uid;
                    let _old = unsafe { self.tree.replace_at(s.addr(p), it) };
                    self.model[rank] = Mi { key, uid, val: 0 };
                }
            }
        }
        Ok(true)
    }

    /// Key for a gap keeping the model sorted under the current order, if one exists.
    fn gap_key_sorted(&self, g: usize) -> Option<u64> {
        if self.order == 0 {
            return self.gap_key(g);
        }
        // try a few keys
        for i in 0..32u64 {
            let k = self.key((i * 37 + g as u64 * 11) as u32);
            if self.find(k) == Err(g) {
                return Some(k);
            }
        }
        None
    }

    /// Contents as the tree reports them through iter(), against the model.
    pub fn check_contents(&self) -> Result<(), String> {
        let fuel = self.fuel();
        fuel::with(fuel, || {
            let mut n = 0;
            for it in self.tree.iter() {
                ensure!(n < self.model.len(), "iteration yields more than the {} items present", self.model.len());
                let m = &self.model[n];
                ensure!(
                    it.uid == m.uid && it.key == m.key && it.val == m.val,
                    "item {n} in order is {it:?} (value {}), should be {}#{} (value {})",
                    it.val,
                    m.key,
                    m.uid,
                    m.val
                );
                it.touch();
                n += 1;
            }
            ensure!(n == self.model.len(), "iteration yields {n} items, should be {}", self.model.len());
            ensure!(
                self.tree.len() == self.model.len(),
                "len() is {}, should be {}",
                self.tree.len(),
                self.model.len()
            );
            ensure!(
                self.tree.is_empty() == self.model.is_empty(),
                "is_empty() is {} with {} items",
                self.tree.is_empty(),
                self.model.len()
            );
            Ok(())
        })
    }

    /// Builds the target shape given by the leading SHAPE_* records, as far as possible.
    pub fn build_shape(&mut self, recs: &[Rec], obs: &mut Obs) -> Result<(), String> {
        let mut groups: Vec<Vec<usize>> = vec![];
        for r in recs {
            match r.k {
                SHAPE_GROUP => groups.push(vec![]),
                SHAPE_LEAF => {
                    if groups.is_empty() {
                        groups.push(vec![]);
                    }
                    groups.last_mut().unwrap().push((r.a as usize).clamp(1, walk::MAX_LEAF));
                }
                _ => (),
            }
        }
        groups.retain(|g| !g.is_empty());
        if groups.is_empty() {
            return Ok(());
        }
        groups.truncate(walk::MAX_CHILDREN);
        for g in groups.iter_mut() {
            g.truncate(walk::MAX_CHILDREN);
        }
        self.order = 0;
        let total: usize = groups.iter().map(|g| g.len()).sum();
        let mut steps = 900;
        if total == 1 {
            for _ in 0..groups[0][0] {
                self.insert_rank(self.model.len(), obs)?;
            }
            return Ok(());
        }
        // 1. enough leaves, by appending
        let want_height = if groups.len() > 1 { 3 } else { 2 };
        loop {
            let s = self.snap()?;
            let leaves = s.nodes.iter().filter(|n| n.leaf).count();
            let h = s.height();
            let tops = s.nodes.first().map(|n| n.children.len()).unwrap_or(0);
            let ok = if want_height == 2 { h == 2 && leaves >= total } else { h == 3 && tops >= groups.len() };
            if ok || steps == 0 || h > want_height {
                break;
            }
            steps -= 1;
            self.insert_rank(self.model.len(), obs)?;
        }
        // 2. child counts of the internal nodes
        if want_height == 3 {
            for (i, g) in groups.iter().enumerate() {
                loop {
                    let s = self.snap()?;
                    if steps == 0 || s.height() != 3 || i >= s.nodes[0].children.len() {
                        break;
                    }
                    let n = s.nodes[0].children[i];
                    let have = s.nodes[n].children.len();
                    let want = g.len().max(walk::MIN_ITEMS + 1);
                    if have == want {
                        break;
                    }
                    steps -= 1;
                    let leaf = *s.nodes[n].children.last().unwrap();
                    let addrs = s.addresses();
                    let rank = s.rank(&addrs, Pos { node: leaf, off: 1 });
                    if have < want {
                        self.insert_rank(rank, obs)?;
                    } else {
                        self.remove_rank(rank, obs)?;
                    }
                }
            }
        }
        // 3. leaf sizes
        let flat: Vec<usize> = groups.iter().flatten().copied().collect();
        for (i, want) in flat.iter().enumerate() {
            loop {
                let s = self.snap()?;
                let leaves: Vec<usize> = leaves_in_order(&s);
                let Some(l) = leaves.get(i) else { break };
                let have = s.nodes[*l].items.len();
                if steps == 0 || have == (*want).max(walk::MIN_ITEMS) {
                    break;
                }
                steps -= 1;
                let addrs = s.addresses();
                let rank = s.rank(&addrs, Pos { node: *l, off: 1 });
                if have < *want {
                    self.insert_rank(rank, obs)?;
                } else {
                    self.remove_rank(rank, obs)?;
                }
            }
        }
        let s = self.snap()?;
        let got: Vec<usize> = leaves_in_order(&s).iter().map(|l| s.nodes[*l].items.len()).collect();
        if got == flat {
            obs.hit("shapes built exactly");
        } else {
            obs.hit("shapes approximated");
        }
        Ok(())
    }

    fn insert_rank(&mut self, rank: usize, obs: &mut Obs) -> Result<(), String> {
        let k = self.gap_key(rank).unwrap_or_else(|| self.model.last().map(|m| m.key + SPREAD).unwrap_or(BASE));
        let f = self.fuel();
        fuel::with(f, || self.insert_key(k, obs))
    }
    fn remove_rank(&mut self, rank: usize, obs: &mut Obs) -> Result<(), String> {
        if rank >= self.model.len() {
            return Ok(());
        }
        let k = self.model[rank].key;
        let f = self.fuel();
        fuel::with(f, || self.remove_key(k, obs))
    }
}

pub fn leaves_in_order<I: Copy + PartialEq + std::fmt::Debug>(s: &Snap<I>) -> Vec<usize> {
    // pre-order lists leaves left to right
    (0..s.nodes.len()).filter(|i| s.nodes[*i].leaf).collect()
}

/// Builds a tree from the history part of a case without judging it.
pub fn build<S: Store<It>>(c: &Case, obs: &mut Obs) -> Result<World<S>, String> {
    let mut w = World::<S>::new(c);
    w.strict = false;
    w.build_shape(&c.recs, obs)?;
    for r in &c.recs {
        if r.k < NKINDS {
            w.apply(r, obs)?;
        }
    }
    // What was built is taken from the tree itself: this property does not judge the history.
    let s = w.snap()?;
    let items = s.items();
    let mut model = Vec::with_capacity(items.len());
    for (k, u) in items {
        let val = w.model.iter().find(|m| m.uid == u).map(|m| m.val).unwrap_or(0);
        model.push(Mi { key: k, uid: u, val });
    }
    w.model = model;
    Ok(w)
}

/// Classifies the structural effect of an operation from node counts.
#[derive(Clone, Copy)]
pub struct Marks {
    allocs: u64,
    releases: u64,
    height: usize,
}
pub fn mark<S: Store<It>>(w: &World<S>) -> Marks {
    Marks { allocs: fuel::allocs(), releases: fuel::releases(), height: height_of(&w.tree) }
}
pub fn height_of<S: Store<It>>(t: &RawBTree<It, S>) -> usize {
    let mut h = 0;
    let mut id = t.root();
    while let Some(i) = id {
        h += 1;
        if h > 64 {
            break;
        }
        id = unsafe { t.node(i) }.child_id_opt(0);
    }
    h
}
pub fn classify<S: Store<It>>(m: Marks, w: &World<S>, obs: &mut Obs) -> bool {
    let (a, r, h) = (fuel::allocs() - m.allocs, fuel::releases() - m.releases, height_of(&w.tree));
    obs.add("splits", a.min(1));
    obs.add("merges", r.min(1));
    if h > m.height {
        obs.hit("height grows");
    }
    if h < m.height && h > 0 {
        obs.hit("height shrinks");
    }
    match h {
        0..=1 => (),
        2 => obs.hit("ops at height 2"),
        3 => obs.hit("ops at height 3"),
        _ => obs.hit("ops at height 4+"),
    }
    a + r > 0
}
