//! Histories without a model, for interpreters: every safe operation, and address-based ones at addresses the tree
//! itself gave for its current state. Nothing is judged here but what the memory checker sees.
use super::*;
use crate::iters;
use raw_btree::node::Address;
use raw_btree::storage::BoxStorage;
use raw_btree::{Item, Node, RawBTree};
use std::hint::black_box;

pub const NOPS: u32 = 26;
const NAMES: [&str; NOPS as usize] = [
    "insert", "remove", "get", "get_mut", "first/last", "first/last_mut", "insert_at", "remove_at", "replace_at", "get_mut_at",
    "walk", "iter", "iter_mut", "into_iter", "clone", "clear", "forget", "visit", "visit_mut", "nodes", "node_mut", "run", "remove_run",
    "held references", "comparator panic", "dot and validate",
];
const TYPES: [&str; 6] = ["u64", "Box<u32>", "String", "[u8; 3]", "Item<u32, Box<u32>>", "align(32)"];

pub fn generate(r: &mut Rng) -> Case {
    let univ = r.pick(&[6, 20, 60, 60, 200]);
    let mut c = Case { params: vec![ONLY_BOXED, r.below(TYPES.len() as u32), univ], recs: vec![] };
    let total = r.pick(&[8, 25, 45, 60]);
    let mut w: [u32; NOPS as usize];
    let mut left = 0;
    while (c.recs.len() as u32) < total {
        w = [9, 5, 1, 1, 1, 1, 4, 4, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 1, 1, 2, 1, 1, 1, 1];
        if left == 0 {
            left = r.range(5, 40);
        }
        left -= 1;
        match c.recs.len() as u32 / 20 % 3 {
            1 => {
                w[0] = 2;
                w[1] = 9;
                w[7] = 9;
                w[22] = 2;
            }
            2 => {
                w[10..=20].fill(2);
                w[15] = (r.below(10) == 0) as u32;
                w[16] = (r.below(10) == 0) as u32;
            }
            _ => w[21] = 3,
        }
        c.recs.push(rec(r.weighted(&w), r.u32() >> 8, r.u32() >> 8));
    }
    c
}

pub fn describe(c: &Case) -> String {
    let mut s = format!("{} in {}:", TYPES[c.p(1) as usize % TYPES.len()], c.p(2));
    for r in &c.recs {
        s.push_str(&format!(" {}({},{})", NAMES[(r.k % NOPS) as usize], r.a, r.b));
    }
    s
}

pub fn prop() -> Prop {
    Prop { id: "lean", rule: "", phases: |_| vec![], enumerate: no_enum, gen: |r, _, _| generate(r), run, describe }
}

pub trait L: Clone + std::fmt::Display {
    fn make(k: u32) -> Self;
    fn key(&self) -> u32;
    /// Writes to the item without changing its key.
    fn poke(&mut self);
}
impl L for u64 {
    fn make(k: u32) -> Self {
        (k as u64) << 32
    }
    fn key(&self) -> u32 {
        (*self >> 32) as u32
    }
    fn poke(&mut self) {
        *self ^= 0x55
    }
}
#[derive(Clone)]
struct Bx(Box<u32>);
impl L for Bx {
    fn make(k: u32) -> Self {
        Bx(Box::new(k))
    }
    fn key(&self) -> u32 {
        *self.0
    }
    fn poke(&mut self) {
        let k = *self.0;
        self.0 = Box::new(k)
    }
}
impl std::fmt::Display for Bx {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl L for String {
    fn make(k: u32) -> Self {
        format!("{k}")
    }
    fn key(&self) -> u32 {
        self.bytes().take_while(|b| b.is_ascii_digit()).fold(0, |a, b| a * 10 + (b - b'0') as u32)
    }
    fn poke(&mut self) {
        self.push('x')
    }
}
#[derive(Clone)]
struct B3([u8; 3]);
impl L for B3 {
    fn make(k: u32) -> Self {
        B3([(k >> 8) as u8, k as u8, 0])
    }
    fn key(&self) -> u32 {
        (self.0[0] as u32) << 8 | self.0[1] as u32
    }
    fn poke(&mut self) {
        self.0[2] ^= 1
    }
}
impl std::fmt::Display for B3 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.key())
    }
}
#[derive(Clone)]
struct Kv(Item<u32, Box<u32>>);
impl L for Kv {
    fn make(k: u32) -> Self {
        Kv(Item { key: k, value: Box::new(k) })
    }
    fn key(&self) -> u32 {
        self.0.key
    }
    fn poke(&mut self) {
        *self.0.value += 1
    }
}
impl std::fmt::Display for Kv {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0.key)
    }
}
#[derive(Clone)]
#[repr(align(32))]
struct Al(u32, u8);
impl L for Al {
    fn make(k: u32) -> Self {
        Al(k, 0)
    }
    fn key(&self) -> u32 {
        self.0
    }
    fn poke(&mut self) {
        self.1 ^= 1
    }
}
impl std::fmt::Display for Al {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

pub fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    match c.p(1) as usize % TYPES.len() {
        0 => go::<u64>(c, obs),
        1 => go::<Bx>(c, obs),
        2 => go::<String>(c, obs),
        3 => go::<B3>(c, obs),
        4 => go::<Kv>(c, obs),
        _ => go::<Al>(c, obs),
    }
    Ok(())
}

fn cmp<X: L>(a: &X, k: &u32) -> std::cmp::Ordering {
    a.key().cmp(k)
}
fn cmp2<X: L>(a: &X, b: &X) -> std::cmp::Ordering {
    a.key().cmp(&b.key())
}

fn go<X: L>(c: &Case, obs: &mut Obs) {
    let univ = c.p(2).clamp(1, 1 << 15);
    let mut t: RawBTree<X, BoxStorage> = RawBTree::new();
    let mut sum = 0u64;
    let mut most = 0;
    for r in &c.recs {
        let k = r.a % univ;
        let n = t.len() as u32;
        most = most.max(n);
        obs.add("lean operations", 1);
        match r.k % NOPS {
            0 => drop(t.insert(cmp2, X::make(k))),
            1 => drop(t.remove(cmp, &k)),
            2 => sum += t.get(cmp, &k).map_or(0, |x| x.key() as u64),
            3 => {
                if let Some(x) = t.get_mut(cmp, &k) {
                    x.poke()
                }
            }
            4 => {
                // two shared references alive together
                let (f, l) = (t.first(), t.last());
                sum += f.map_or(0, |x| x.key() as u64) + l.map_or(0, |x| x.key() as u64);
            }
            5 => {
                let x = if r.b % 2 == 0 { t.first_mut() } else { t.last_mut() };
                if let Some(x) = x {
                    x.poke();
                    sum += x.key() as u64;
                    x.poke();
                }
            }
            6 => {
                // insert where the search says, move around, then edit there again
                if let Err(a) = t.address_of(cmp, &k) {
                    let a = unsafe { t.insert_at(a, X::make(k)) };
                    if let (Some(a), true) = (a, r.b % 2 == 0) {
                        if let Some(x) = unsafe { t.get_mut_at(a) } {
                            x.poke()
                        }
                        sum += unsafe { t.get_at(a) }.map_or(0, |x| x.key() as u64);
                        if r.b % 8 == 0 {
                            drop(unsafe { t.remove_at(a) });
                        }
                    }
                }
            }
            7 => {
                if let Some(a) = at(&t, r.a, k) {
                    if let Some((x, a)) = unsafe { t.remove_at(a) } {
                        if r.b % 4 == 0 {
                            unsafe { t.insert_at(a, x) };
                        }
                    }
                }
            }
            8 => {
                if let Ok(a) = t.address_of(cmp, &k) {
                    drop(unsafe { t.replace_at(a, X::make(k)) });
                }
            }
            9 => {
                if let Some(a) = at(&t, r.a, k) {
                    if let Some(x) = unsafe { t.get_mut_at(a) } {
                        x.poke()
                    }
                }
            }
            10 => {
                let mut a = at(&t, r.a, k);
                for i in 0..(r.b % 12) {
                    let Some(x) = a else { break };
                    let back = x.offset.value().is_some();
                    a = unsafe {
                        match (r.b >> 4).wrapping_add(i) % 4 {
                            0 | 1 => t.next_item_address(x),
                            2 => t.previous_item_address(x),
                            _ if back => t.normalize(x),
                            _ => t.next_back_address(x),
                        }
                    };
                    if let Some(x) = a {
                        sum += unsafe { t.get_at(x) }.map_or(0, |x| x.key() as u64);
                    }
                }
            }
            11 => {
                let mut it = t.iter();
                let mut held = vec![];
                for i in 0..(r.a % (n + 2)) {
                    held.extend(if r.b >> (i % 16) & 1 == 0 { it.next() } else { it.next_back() });
                }
                let rest = it;
                let mut calls = it;
                sum += iters::part(&mut calls, r.a, r.b as usize % 5, |x| x.key() as u64).len() as u64;
                sum += iters::rest(calls, r.b, r.a as usize % 5, |x| x.key() as u64).len() as u64;
                sum += it.count() as u64 + rest.map(|x| x.key() as u64).sum::<u64>();
                sum += held.iter().map(|x| x.key() as u64).sum::<u64>();
            }
            12 => {
                let mut it = t.iter_mut();
                for i in 0..(r.a % (n + 2)) {
                    let x = if r.b >> (i % 16) & 1 == 0 { it.next() } else { it.next_back() };
                    // used before the iterator is advanced again (see known-findings.txt)
                    if let Some(x) = x {
                        x.poke();
                        sum += x.key() as u64;
                    }
                }
            }
            13 => {
                let mut it = if r.b & 1 == 0 { t.clone().into_iter() } else { std::mem::take(&mut t).into_iter() };
                let mut held = vec![];
                for i in 0..(r.a % (n + 2)) {
                    held.extend(if r.b >> (1 + i % 16) & 1 == 0 { it.next() } else { it.next_back() });
                }
                match r.b % 3 {
                    0 => drop(it),
                    1 => sum += iters::part(&mut it, r.a, r.b as usize % 5, |x| x.key() as u64).len() as u64,
                    _ => sum += iters::rest(it, r.a, r.b as usize % 5, |x| x.key() as u64).len() as u64,
                }
                sum += held.iter().map(|x| x.key() as u64).sum::<u64>();
            }
            14 => {
                let other = t.clone();
                if r.a % 2 == 0 {
                    t = other
                } else {
                    sum += other.iter().map(|x| x.key() as u64).sum::<u64>()
                }
            }
            15 => t.clear(),
            16 => t.forget(),
            17 => {
                let mut ids = vec![];
                t.visit_from_leaves(|id| ids.push(id));
                for id in ids {
                    sum += unsafe { t.node(id) }.item_count() as u64
                }
            }
            18 => t.visit_from_leaves_mut(|_, n| {
                for i in 0..n.item_count() {
                    if let Some(x) = n.item_mut(i.into()) {
                        x.poke()
                    }
                }
            }),
            19 => {
                // references into several nodes alive together
                let mut refs: Vec<&X> = vec![];
                let mut stack: Vec<_> = t.root().into_iter().collect();
                while let (Some(id), true) = (stack.pop(), refs.len() < 2000) {
                    let node = unsafe { t.node(id) };
                    for i in 0..node.item_count() {
                        refs.extend(node.item(i.into()))
                    }
                    stack.extend(node.children());
                    sum += node.children_with_separators().count() as u64 + node.parent().is_some() as u64;
                }
                sum += refs.iter().map(|x| x.key() as u64).sum::<u64>();
            }
            20 => {
                if let Some(a) = at(&t, r.a, k) {
                    let node = unsafe { t.node_mut(a.node) };
                    if let Some(x) = node.item_mut(a.offset) {
                        x.poke()
                    }
                    let count = node.item_count();
                    if count > 0 {
                        if let Some(x) = node.item_mut((r.b as usize % count).into()) {
                            x.poke();
                        }
                    }
                }
            }
            21 => {
                for i in 0..(r.b % 24) {
                    let k = match r.b >> 8 & 3 {
                        0 => k + i,
                        1 => (k + univ - i % univ) % univ,
                        _ => k.wrapping_mul(31).wrapping_add(i * 7919),
                    } % univ;
                    drop(t.insert(cmp2, X::make(k)));
                }
            }
            22 => {
                for _ in 0..(r.b % 24) {
                    let Some(k) = (if r.b >> 8 & 1 == 0 { t.first() } else { t.last() }).map(|x| x.key()) else { break };
                    drop(t.remove(cmp, &k));
                }
            }
            23 => {
                // shared references of several origins, used after other shared uses
                let (a, b) = (t.get(cmp, &k), t.first());
                let mut it = t.iter();
                let c = it.next_back();
                let d = at(&t, r.a, k).and_then(|a| unsafe { t.get_at(a) });
                let len = t.iter().filter(|x| x.key() > k).count() as u64;
                for x in [a, b, c, d].into_iter().flatten() {
                    sum += x.key() as u64 + len;
                }
            }
            24 => {
                let fuse = std::cell::Cell::new(r.b % 8);
                let cmp3 = |a: &X, b: &X| {
                    if fuse.get() == 0 {
                        panic!("{}", crate::ledger::INJECTED)
                    }
                    fuse.set(fuse.get() - 1);
                    cmp2(a, b)
                };
                let _ = panics(|| t.insert(cmp3, X::make(k)));
            }
            _ => {
                #[cfg(debug_assertions)]
                t.validate(cmp2);
                let mut out = vec![];
                let _ = t.dot_write(&mut out);
                sum += out.len() as u64;
            }
        }
    }
    obs.nontrivial = most > 8;
    match c.recs.len() % 3 {
        0 => {
            let mut it = t.into_iter();
            for _ in 0..(most / 3) {
                sum += it.next().map_or(0, |x| x.key() as u64) + it.next_back().map_or(0, |x| x.key() as u64);
            }
        }
        _ => drop(t),
    }
    black_box(sum);
}

/// Some valid address: of an item, or where one would go.
fn at<X: L>(t: &RawBTree<X, BoxStorage>, sel: u32, k: u32) -> Option<Address<raw_btree::storage::BoxPtr<X>>> {
    if sel % 2 == 0 {
        return match t.address_of(cmp, &k) {
            Ok(a) => Some(a),
            Err(a) => a,
        };
    }
    let mut id = t.root()?;
    let mut bits = sel;
    loop {
        let node: &Node<X, BoxStorage> = unsafe { t.node(id) };
        bits = bits.wrapping_mul(0x9E37_79B1) ^ (bits >> 7);
        let i = bits as usize >> 8;
        match node.child_count() {
            0 => return Some(Address::new(id, (i % (node.item_count() + 1)).into())),
            _ if bits % 4 == 0 => return Some(Address::new(id, (i % node.item_count().max(1)).into())),
            n => id = node.child_id(i % n),
        }
    }
}
