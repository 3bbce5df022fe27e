//! C15: single nodes, handled outside any tree, against a list of items and child identifiers.
use super::*;
use crate::gen::ensure;
use crate::iters;
use crate::ledger::It;
use crate::store::{SId, Slab, FRESH};
use crate::walk::to_offset;
use raw_btree::node::{Balance, InternalNode, LeafNode};
use raw_btree::{Node, M};
use std::cmp::Ordering;

type S = Slab<It, { FRESH }>;
type N = Node<It, S>;

const CAP_LEAF: usize = M + 1;
const CAP_INTERNAL: usize = M;
const MIN: usize = M / 2 - 1;
/// Item counts: up to one more than a leaf can hold.
const COUNTS: usize = M + 2;

// operations
const LOOKUP: u32 = 0;
const INSERT_KEY: u32 = 1;
const INSERT: u32 = 2;
const REMOVE: u32 = 3;
const REPLACE: u32 = 4;
const PUSH_LEFT: u32 = 5;
const PUSH_RIGHT: u32 = 6;
const POP_LEFT: u32 = 7;
const POP_RIGHT: u32 = 8;
const SPLIT: u32 = 9;
const MERGE: u32 = 10;
const APPEND: u32 = 11;
const LEAF_REMOVE: u32 = 12;
const REMOVE_RIGHTMOST: u32 = 13;
const ITEM_MUT: u32 = 14;
const PARENT: u32 = 15;
const FORGET: u32 = 16;
const NOPS: u32 = 17;
const OPS: [&str; NOPS as usize] = [
    "lookup", "insert_by_key", "insert", "remove", "replace", "push_left", "push_right", "pop_left", "pop_right", "split",
    "merge", "append", "leaf_remove", "remove_rightmost_leaf", "item_mut", "set_parent", "forget",
];

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "the node is split, merged into, appended to, or a pop is refused",
        phases: |t| {
            vec![
                ph("every operation on every small node; operation sequences", Exe::Checked, SMALL, n(t, 1_500_000)),
                ph("operation sequences, shipped configuration", Exe::Ship, SMALL, n(t, 1_000_000)),
            ]
        },
        enumerate: |i, _, _| {
            // params: 0 kind, 1 items, 2 odd: as the enum or as the concrete node
            let (kind, i) = (i % 4, i / 4);
            let (count, i) = (i % COUNTS as u64, i / COUNTS as u64);
            let (op, i) = (i % NOPS as u64, i / NOPS as u64);
            Case { params: vec![kind as u32, count as u32], recs: vec![rec(op as u32, i as u32, 0), rec(op as u32, i as u32, 1)] }
        },
        gen: |r, _, _| {
            let mut c = Case { params: vec![r.below(4), r.below(COUNTS as u32)], recs: vec![] };
            let w: [u32; NOPS as usize] = match r.below(3) {
                0 => [4, 3, 3, 3, 1, 2, 2, 2, 2, 3, 1, 3, 2, 1, 1, 1, 0],
                1 => [2, 6, 6, 1, 1, 4, 4, 1, 1, 6, 1, 2, 1, 1, 1, 1, 1],
                _ => [2, 1, 2, 6, 1, 1, 1, 5, 5, 2, 4, 2, 4, 3, 1, 1, 0],
            };
            for _ in 0..r.range(1, 40) {
                c.recs.push(rec(r.weighted(&w), r.below(64), r.below(16)));
            }
            c
        },
        run,
        describe,
    }
}
const SMALL: u64 = 4 * COUNTS as u64 * NOPS as u64 * 12;

fn describe(c: &Case) -> String {
    let mut s = format!(
        "{} with {} items{}:",
        if c.p(0) % 2 == 0 { "leaf" } else { "internal node" },
        c.p(1) % COUNTS as u32,
        if c.p(0) / 2 % 2 == 0 { ", as a Node" } else { ", as its own type" }
    );
    for r in &c.recs {
        s.push_str(&format!(" {}({},{})", OPS.get(r.k as usize).unwrap_or(&"-"), r.a, r.b));
    }
    s
}

/// The reference: the items (key, uid, val), the child identifiers around them, the parent.
#[derive(Clone, Debug)]
struct Model {
    leaf: bool,
    items: Vec<(u64, u64, u64)>,
    children: Vec<SId>,
    parent: Option<SId>,
}

struct Ids(u32, u64);
impl Ids {
    /// Varying choices of iterator calls.
    fn calls(&mut self) -> u32 {
        self.1 += 1;
        (self.1.wrapping_mul(0x9E3779B97F4A7C15) >> 32) as u32
    }
    fn next(&mut self) -> SId {
        self.0 += 1;
        SId::fake(self.0)
    }
}

fn key_at(m: &Model, gap: usize) -> Option<u64> {
    const STEP: u64 = 1 << 32;
    let k = |i: usize| m.items[i].0;
    if m.items.is_empty() {
        return Some(1 << 50);
    }
    if gap == 0 {
        return Some(k(0) - STEP);
    }
    if gap >= m.items.len() {
        return Some(k(m.items.len() - 1) + STEP);
    }
    let (a, b) = (k(gap - 1), k(gap));
    (b - a >= 2).then_some(a + (b - a) / 2)
}

fn cmp(a: &It, k: &u64) -> Ordering {
    a.touch();
    crate::fuel::cmp();
    a.key.cmp(k)
}
fn cmp_item(a: &It, b: &It) -> Ordering {
    a.touch();
    b.touch();
    crate::fuel::cmp();
    a.key.cmp(&b.key)
}
fn tri(i: &It) -> (u64, u64, u64) {
    (i.key, i.uid, i.val)
}

fn build(leaf: bool, count: usize, ids: &mut Ids) -> (N, Model) {
    let mut m = Model { leaf, items: vec![], children: vec![], parent: Some(ids.next()) };
    let mut new = |m: &mut Model| {
        let it = It::new((1 << 50) + ((m.items.len() as u64) << 32), true);
        m.items.push(tri(&it));
        it
    };
    if leaf {
        if count == 1 {
            let it = new(&mut m);
            return (N::leaf(m.parent, it), m);
        }
        let v: Vec<It> = (0..count).map(|_| new(&mut m)).collect();
        (Node::Leaf(LeafNode::new(m.parent, v.into_iter().collect())), m)
    } else {
        m.children.push(ids.next());
        if count == 0 {
            return (Node::Internal(InternalNode::new(m.parent, m.children[0], Default::default())), m);
        }
        let it = new(&mut m);
        m.children.push(ids.next());
        let mut n = N::binary(m.parent, m.children[0], it, m.children[1]);
        while m.items.len() < count.min(CAP_INTERNAL) {
            let it = new(&mut m);
            let id = ids.next();
            m.children.push(id);
            n.push_right(it, Some(id));
        }
        (n, m)
    }
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut ids = Ids(0, c.hash64());
    let leaf = c.p(0) % 2 == 0;
    let own = c.p(0) / 2 % 2 == 1;
    let (mut n, mut m) = build(leaf, c.p(1) as usize % COUNTS, &mut ids);
    same(&n, &m, &mut ids).map_err(|e| format!("a new node: {e}"))?;
    for (i, r) in c.recs.iter().enumerate() {
        if r.k >= NOPS {
            continue;
        }
        obs.say(|| format!("{} on {:?}", OPS[r.k as usize], m));
        let e = crate::fuel::with(10_000, || step(&mut n, &mut m, r, own, &mut ids, obs));
        e.map_err(|e| format!("operation {i} {}: {e}", OPS[r.k as usize]))?;
        same(&n, &m, &mut ids).map_err(|e| format!("after operation {i} {}: {e}", OPS[r.k as usize]))?;
    }
    Ok(())
}

fn num(id: &SId) -> u64 {
    usize::from(*id) as u64
}
/// The calls an iterator may specialise.
fn calls<I: Iterator>(what: &str, mut it: I, id: impl Fn(&I::Item) -> u64 + Copy, want: Vec<u64>, how: u32) -> Result<(), String> {
    let (part, n, rest) = (how, (how >> 12) as usize % 10, how >> 5);
    let mut w = want.into_iter();
    let hint = |h: (usize, Option<usize>), k: usize| {
        ensure!(h.0 <= k && h.1.is_none_or(|u| u >= k), "size_hint() of {what} is {h:?} with {k} left");
        Ok(())
    };
    hint(it.size_hint(), w.len())?;
    let (g, e) = (iters::part_fwd(&mut it, part, n, id), iters::part_fwd(&mut w, part, n, |x| *x));
    ensure!(g == e, "advancing call {} with {n} on {what} gives {g:?}, should give {e:?}", part % iters::PART_FWD);
    hint(it.size_hint(), w.len())?;
    let (g, e) = (iters::rest_fwd(it, rest, n, id), iters::rest_fwd(w, rest, n, |x| *x));
    ensure!(g == e, "consuming call {} with {n} on {what} gives {g:?}, should give {e:?}", rest % iters::REST_FWD);
    Ok(())
}

/// Everything the node can be asked, against the model.
fn same(n: &N, m: &Model, ids: &mut Ids) -> Result<(), String> {
    let k = m.items.len();
    ensure!(n.item_count() == k, "item_count() is {}, should be {k}", n.item_count());
    ensure!(n.child_count() == m.children.len(), "child_count() is {}, should be {}", n.child_count(), m.children.len());
    ensure!(n.parent() == m.parent, "parent() is {:?}, should be {:?}", n.parent(), m.parent);
    for i in -1..(k as i64 + 3) {
        let want = if i >= 0 { m.items.get(i as usize).copied() } else { None };
        let got = panics(|| n.item(to_offset(i)).map(tri)).map_err(|e| format!("item({i}) panics: {e}"))?;
        ensure!(got == want, "item({i}) is {got:?}, should be {want:?}");
    }
    for i in 0..m.children.len() + 3 {
        let want = m.children.get(i).copied();
        ensure!(n.child_id_opt(i) == want, "child_id_opt({i}) is {:?}, should be {want:?}", n.child_id_opt(i));
        if let Some(w) = want {
            ensure!(n.child_id(i) == w, "child_id({i}) is {:?}, should be {w:?}", n.child_id(i));
            let at = m.children.iter().position(|c| *c == w);
            ensure!(n.child_index(w) == at, "child_index of child {i} is {:?}", n.child_index(w));
        }
    }
    let none = n.child_index(ids.next());
    ensure!(none.is_none(), "child_index of no child is {none:?}");
    // iteration over children
    let got: Vec<SId> = n.children().take(20).collect();
    ensure!(got == m.children, "children() gives {got:?}, should be {:?}", m.children);
    // and by other calls than next(), after taking some
    let how = ids.calls();
    let skip = (how >> 20) as usize % 4;
    let mut it = n.children();
    for _ in 0..skip {
        it.next();
    }
    let w: Vec<u64> = m.children.iter().skip(skip).map(num).collect();
    calls("children()", it, |x| num(x), w, how)?;
    let want: Vec<_> = m
        .children
        .iter()
        .enumerate()
        .map(|(i, c)| (if i > 0 { Some(m.items[i - 1]) } else { None }, *c, m.items.get(i).copied()))
        .collect();
    let got: Vec<_> = n.children_with_separators().take(20).map(|(l, c, r)| (l.map(tri), c, r.map(tri))).collect();
    ensure!(got == want, "children_with_separators() gives {got:?}, should be {want:?}");
    let how = ids.calls();
    let skip = (how >> 20) as usize % 4;
    let mut it = n.children_with_separators();
    for _ in 0..skip {
        it.next();
    }
    let code = |l: Option<u64>, c: u64, r: Option<u64>| c * 10_000 + l.map_or(0, |x| x % 97 + 1) * 100 + r.map_or(0, |x| x % 97 + 1);
    let w: Vec<u64> = want.iter().skip(skip).map(|(l, c, r)| code(l.map(|x| x.1), num(c), r.map(|x| x.1))).collect();
    calls("children_with_separators()", it, |(l, c, r)| code(l.map(|x| x.uid), num(c), r.map(|x| x.uid)), w, how)?;
    for (i, w) in want.iter().enumerate() {
        let (l, r) = n.separators(i);
        let got = (l.map(tri), r.map(tri));
        ensure!(got == (w.0, w.2), "separators({i}) is {got:?}, should be {:?}", (w.0, w.2));
    }
    match n {
        Node::Leaf(l) => {
            ensure!(m.leaf, "a leaf where an internal node should be");
            let v: Vec<_> = l.iter().map(tri).collect();
            ensure!(v == m.items, "iter() gives {v:?}, should be {:?}", m.items);
            let v: Vec<_> = l.items().iter().map(tri).collect();
            ensure!(v == m.items, "items() is {v:?}, should be {:?}", m.items);
            ensure!(l.item_count() == k && l.parent() == m.parent, "item_count() or parent() of the leaf is wrong");
            ensure!(n.separators(0).0.is_none() && n.separators(0).1.is_none(), "a leaf has separators");
        }
        Node::Internal(x) => {
            ensure!(!m.leaf, "an internal node where a leaf should be");
            ensure!(x.first_child_id() == m.children[0], "first_child_id() is {:?}", x.first_child_id());
            let v: Vec<_> = x.branches().iter().map(|b| (tri(&b.item), b.child)).collect();
            let w: Vec<_> = m.items.iter().copied().zip(m.children[1..].iter().copied()).collect();
            ensure!(v == w, "branches() is {v:?}, should be {w:?}");
            ensure!(x.item_count() == k && x.child_count() == k + 1 && x.parent() == m.parent, "counts or parent of the internal node are wrong");
        }
    }
    balanced(&n.balance(), m)?;
    let (over, under) = (k >= if m.leaf { CAP_LEAF } else { CAP_INTERNAL }, k < MIN);
    ensure!(n.is_overflowing() == over, "is_overflowing() is {} with {k} items", n.is_overflowing());
    ensure!(n.is_underflowing() == under, "is_underflowing() is {} with {k} items", n.is_underflowing());
    Ok(())
}

fn balanced(b: &Balance, m: &Model) -> Result<(), String> {
    let k = m.items.len();
    let over = k >= if m.leaf { CAP_LEAF } else { CAP_INTERNAL };
    let ok = match b {
        Balance::Overflow => over,
        Balance::Underflow(empty) => k < MIN && *empty == (k == 0),
        Balance::Balanced => !over && k >= MIN,
    };
    ensure!(ok, "balance() is {b:?} with {k} items");
    Ok(())
}

/// Looks `key` up in every way.
fn lookup(n: &mut N, m: &Model, key: u64, own: bool) -> Result<(), String> {
    let at = m.items.binary_search_by(|i| i.0.cmp(&key));
    let want = at.ok().map(|i| m.items[i]);
    let text = key.to_string();
    let by_text = |a: &It, k: &str| a.key.cmp(&k.parse().unwrap());
    let off = |o: raw_btree::node::Offset| o.value().map(|v| v as i64).unwrap_or(-1);
    if own {
        match n {
            Node::Leaf(l) => {
                let g = l.get(cmp, &key).map(tri);
                ensure!(g == want, "Leaf::get is {g:?}, should be {want:?}");
                let g = l.get_mut(cmp, &key).map(|i| tri(i));
                ensure!(g == want, "Leaf::get_mut is {g:?}, should be {want:?}");
                let g = l.offset_of(cmp, &key).map(off).map_err(off);
                let w = at.map(|i| i as i64).map_err(|i| i as i64);
                ensure!(g == w, "Leaf::offset_of is {g:?}, should be {w:?}");
            }
            Node::Internal(x) => {
                let w = at.map(|i| m.items[i]).map_err(|i| m.children[i]);
                let g = x.get(cmp, &key).map(tri);
                ensure!(g == w, "Internal::get is {g:?}, should be {w:?}");
                let g = x.get_mut(cmp, &key).map(|i| tri(i)).map_err(|c| *c);
                ensure!(g == w, "Internal::get_mut is {g:?}, should be {w:?}");
                let g = x.offset_of(cmp, &key).map(off);
                let w = at.map(|i| i as i64).map_err(|i| (i, m.children[i]));
                ensure!(g == w, "Internal::offset_of is {g:?}, should be {w:?}");
            }
        }
        return Ok(());
    }
    let w: Result<Option<(u64, u64, u64)>, SId> = match (m.leaf, at) {
        (_, Ok(i)) => Ok(Some(m.items[i])),
        (true, Err(_)) => Ok(None),
        (false, Err(i)) => Err(m.children[i]),
    };
    let g = n.get(cmp, &key).map(|i| i.map(tri));
    ensure!(g == w, "get is {g:?}, should be {w:?}");
    let g = n.get(by_text, text.as_str()).map(|i| i.map(tri));
    ensure!(g == w, "get with a key of another type is {g:?}, should be {w:?}");
    let g = n.get_mut(cmp, &key).map(|i| i.map(|i| tri(i))).map_err(|c| *c);
    ensure!(g == w, "get_mut is {g:?}, should be {w:?}");
    let w = match (m.leaf, at) {
        (_, Ok(i)) => Ok(i as i64),
        (true, Err(i)) => Err((i, None)),
        (false, Err(i)) => Err((i, Some(m.children[i]))),
    };
    let g = n.offset_of(cmp, &key).map(off);
    ensure!(g == w, "offset_of is {g:?}, should be {w:?}");
    Ok(())
}

fn step(n: &mut N, m: &mut Model, r: &Rec, own: bool, ids: &mut Ids, obs: &mut Obs) -> Result<(), String> {
    let k = m.items.len();
    let cap = if m.leaf { CAP_LEAF } else { CAP_INTERNAL };
    let full = k >= cap;
    let off = |o: raw_btree::node::Offset| o.value().map(|v| v as i64).unwrap_or(-1);
    let new = |m: &Model, gap: usize| key_at(m, gap).map(|k| It::new(k, true));
    match r.k {
        LOOKUP => {
            let key = match r.b % 3 {
                0 if k > 0 => m.items[r.a as usize % k].0,
                1 => key_at(m, r.a as usize % (k + 1)).unwrap_or(0),
                2 if k > 0 => m.items[r.a as usize % k].0 + 1,
                _ => r.a as u64,
            };
            panics(|| lookup(n, m, key, own)).map_err(|e| format!("a lookup panics: {e}"))??;
            obs.hit("lookups");
        }
        INSERT_KEY => {
            // replacing, or new
            if r.b % 2 == 0 && k > 0 {
                let i = r.a as usize % k;
                let it = It::new(m.items[i].0, true);
                let t = tri(&it);
                let res = if own {
                    match n {
                        Node::Leaf(l) => Ok(l.insert_by_key(cmp_item, it)),
                        Node::Internal(x) => x.insert_by_key(cmp_item, it).map(|(o, i)| (o, Some(i))),
                    }
                } else {
                    n.insert_by_key(cmp_item, it)
                };
                match res {
                    Ok((o, old)) => {
                        ensure!(off(o) == i as i64, "returned offset {o}, should be {i}");
                        let old = old.as_ref().map(tri);
                        ensure!(old == Some(m.items[i]), "returned {old:?}, should be {:?}", m.items[i]);
                        m.items[i] = t;
                    }
                    Err(_) => return Err("an equivalent item is present, but the insertion is refused".into()),
                }
                obs.hit("replacing insertions by key");
                return Ok(());
            }
            let gap = r.a as usize % (k + 1);
            if m.leaf && full {
                return Ok(());
            }
            let Some(it) = new(m, gap) else { return Ok(()) };
            let t = tri(&it);
            let res = panics(|| {
                if own {
                    match n {
                        Node::Leaf(l) => Ok(l.insert_by_key(cmp_item, it)),
                        Node::Internal(x) => x.insert_by_key(cmp_item, it).map(|(o, i)| (o, Some(i))),
                    }
                } else {
                    n.insert_by_key(cmp_item, it)
                }
            })
            .map_err(|e| format!("panics: {e}"))?;
            match res {
                Ok((o, old)) => {
                    ensure!(m.leaf, "an internal node accepts a new item by key");
                    ensure!(off(o) == gap as i64, "returned offset {o}, should be {gap}");
                    ensure!(old.is_none(), "returned a replaced item although the item is new");
                    m.items.insert(gap, t);
                }
                Err(e) => {
                    ensure!(!m.leaf, "a leaf refuses an item by key");
                    ensure!(tri(&e.item) == t, "the refused item is not the one given");
                    ensure!(e.child_offset == gap, "refused with child offset {}, should be {gap}", e.child_offset);
                    ensure!(e.child_id == m.children[gap], "refused with child {:?}, should be {:?}", e.child_id, m.children[gap]);
                }
            }
            obs.hit("insertions by key");
        }
        INSERT => {
            if full {
                return Ok(());
            }
            let gap = r.a as usize % (k + 1);
            let Some(it) = new(m, gap) else { return Ok(()) };
            m.items.insert(gap, tri(&it));
            if m.leaf {
                match n {
                    Node::Leaf(l) if own => l.insert(gap.into(), it),
                    n => n.insert(gap.into(), it, None),
                }
            } else {
                let id = ids.next();
                m.children.insert(gap + 1, id);
                match n {
                    Node::Internal(x) if own => x.insert(gap.into(), it, id),
                    n => n.insert(gap.into(), it, Some(id)),
                }
            }
        }
        REMOVE => {
            if k == 0 {
                return Ok(());
            }
            let i = r.a as usize % k;
            let t = m.items.remove(i);
            match n {
                Node::Leaf(l) => {
                    let g = tri(&l.remove(i.into()));
                    ensure!(g == t, "removed {g:?}, should be {t:?}");
                }
                Node::Internal(x) => {
                    let (l, it, rr) = x.remove(i.into());
                    let right = m.children.remove(i + 1);
                    ensure!(tri(&it) == t, "removed {:?}, should be {t:?}", tri(&it));
                    ensure!(l == m.children[i] && rr == right, "removed between {l:?} and {rr:?}, should be {:?} and {right:?}", m.children[i]);
                }
            }
        }
        REPLACE => {
            if k == 0 || m.leaf {
                return Ok(());
            }
            let i = r.a as usize % k;
            let it = It::new(m.items[i].0, true);
            let t = tri(&it);
            let old = match n {
                Node::Internal(x) if own => x.replace(i.into(), it),
                n => n.replace(i.into(), it),
            };
            ensure!(tri(&old) == m.items[i], "replaced {:?}, should be {:?}", tri(&old), m.items[i]);
            m.items[i] = t;
        }
        PUSH_LEFT => {
            if full {
                return Ok(());
            }
            let it = new(m, 0).unwrap();
            m.items.insert(0, tri(&it));
            let id = ids.next();
            match n {
                Node::Leaf(l) if own => l.push_left(it),
                Node::Internal(x) if own => x.push_left(it, id),
                n => n.push_left(it, if m.leaf { None } else { Some(id) }),
            }
            if !m.leaf {
                m.children.insert(0, id);
            }
        }
        PUSH_RIGHT => {
            if full {
                return Ok(());
            }
            let it = new(m, k).unwrap();
            m.items.push(tri(&it));
            let id = ids.next();
            let o = match n {
                Node::Leaf(l) if own => l.push_right(it),
                Node::Internal(x) if own => x.push_right(it, id),
                n => n.push_right(it, if m.leaf { None } else { Some(id) }),
            };
            ensure!(off(o) == k as i64, "returned offset {o}, the item is at {k}");
            if !m.leaf {
                m.children.push(id);
            }
        }
        POP_LEFT => {
            let res = match n {
                Node::Leaf(l) if own => l.pop_left().map(|i| (i, None)),
                Node::Internal(x) if own => x.pop_left().map(|(i, c)| (i, Some(c))),
                n => n.pop_left(),
            };
            ensure!(res.is_err() == (k <= MIN), "{} with {k} items", if res.is_err() { "refused" } else { "not refused" });
            if let Ok((it, c)) = res {
                let t = m.items.remove(0);
                ensure!(tri(&it) == t, "popped {:?}, should be {t:?}", tri(&it));
                let w = if m.leaf { None } else { Some(m.children.remove(0)) };
                ensure!(c == w, "popped child {c:?}, should be {w:?}");
            } else {
                obs.hit("refused pops");
                obs.nontrivial = true;
            }
        }
        POP_RIGHT => {
            let res = match n {
                Node::Leaf(l) if own => l.pop_right().map(|(o, i)| (o, i, None)),
                Node::Internal(x) if own => x.pop_right().map(|b| (b.offset, b.item, Some(b.child))),
                n => n.pop_right(),
            };
            ensure!(res.is_err() == (k <= MIN), "{} with {k} items", if res.is_err() { "refused" } else { "not refused" });
            if let Ok((o, it, c)) = res {
                let t = m.items.pop().unwrap();
                ensure!(tri(&it) == t, "popped {:?}, should be {t:?}", tri(&it));
                ensure!(off(o) == k as i64 - 1, "returned offset {o}, the popped item was at {}", k - 1);
                let w = if m.leaf { None } else { m.children.pop() };
                ensure!(c == w, "popped child {c:?}, should be {w:?}");
            } else {
                obs.hit("refused pops");
                obs.nontrivial = true;
            }
        }
        SPLIT => {
            if !full {
                return Ok(());
            }
            let (len, median, mut right) = match &mut *n {
                Node::Leaf(l) if own => {
                    let (a, b, c) = l.split();
                    (a, b, Node::Leaf(c))
                }
                Node::Internal(x) if own => {
                    let (a, b, c) = x.split();
                    (a, b, Node::Internal(c))
                }
                n => n.split(),
            };
            obs.hit("splits");
            obs.nontrivial = true;
            ensure!(len < k, "returned length {len} after splitting {k} items");
            let mut rm = Model { leaf: m.leaf, items: m.items.split_off(len + 1), children: vec![], parent: m.parent };
            let t = m.items.pop().unwrap();
            if !m.leaf {
                rm.children = m.children.split_off(len + 1);
            }
            ensure!(tri(&median) == t, "the median is {:?}, should be {t:?}", tri(&median));
            ensure!(m.items.len() >= MIN && rm.items.len() >= MIN, "split into {} and {} items", m.items.len(), rm.items.len());
            same(n, m, ids).map_err(|e| format!("left half: {e}"))?;
            same(&right, &rm, ids).map_err(|e| format!("right half: {e}"))?;
            match r.b % 4 {
                0 | 1 => {
                    // append is the inverse
                    let o = append(n, median, right, own);
                    ensure!(off(o) == len as i64, "append returned offset {o}, the separator is at {len}");
                    m.items.push(t);
                    m.items.append(&mut rm.items);
                    m.children.append(&mut rm.children);
                }
                2 => {
                    std::mem::swap(n, &mut right);
                    std::mem::swap(m, &mut rm);
                }
                _ => (),
            }
        }
        MERGE => {
            if k == 0 || m.leaf {
                return Ok(());
            }
            let i = r.a as usize % k;
            let (j, l, rr, it, b) = match n {
                Node::Internal(x) if own => x.merge(i),
                n => n.merge(i),
            };
            let t = m.items.remove(i);
            let right = m.children.remove(i + 1);
            ensure!(j == i, "returned offset {j}, should be {i}");
            ensure!(tri(&it) == t, "the separator is {:?}, should be {t:?}", tri(&it));
            ensure!(l == m.children[i] && rr == right, "merges {l:?} and {rr:?}, should be {:?} and {right:?}", m.children[i]);
            balanced(&b, m).map_err(|e| format!("returned {e}"))?;
            obs.hit("merges");
            obs.nontrivial = true;
        }
        APPEND => {
            let room = cap.saturating_sub(k + 1);
            if k >= cap || (m.leaf && k + 1 > cap) {
                return Ok(());
            }
            let extra = (r.a as usize % (M + 1)).min(room);
            let (other, mut om) = build(m.leaf, extra, ids);
            // keys above ours
            let base = key_at(m, k).unwrap();
            let mut other = other;
            for i in 0..extra {
                let x = other.item_mut(i.into()).unwrap();
                x.key = base + ((i as u64 + 1) << 32);
                om.items[i] = tri(x);
            }
            let sep = It::new(base, true);
            m.items.push(tri(&sep));
            let o = append(n, sep, other, own);
            ensure!(off(o) == k as i64, "returned offset {o}, the separator is at {k}");
            m.items.append(&mut om.items);
            m.children.append(&mut om.children);
            obs.hit("appends");
            obs.nontrivial = true;
        }
        LEAF_REMOVE => {
            let i = r.a as i64 % (k as i64 + 4) - 1;
            let got = panics(|| n.leaf_remove(to_offset(i))).map_err(|e| format!("leaf_remove({i}) panics: {e}"))?;
            match got {
                None => ensure!(i < 0 || i >= k as i64, "leaf_remove({i}) is None with {k} items"),
                Some(Ok(it)) => {
                    ensure!(m.leaf && i >= 0 && i < k as i64, "leaf_remove({i}) removes an item with {k} items");
                    let t = m.items.remove(i as usize);
                    ensure!(tri(&it) == t, "removed {:?}, should be {t:?}", tri(&it));
                }
                Some(Err(c)) => {
                    ensure!(!m.leaf && i >= 0 && i < k as i64, "leaf_remove({i}) refers to a child with {k} items");
                    ensure!(c == m.children[i as usize], "leaf_remove({i}) refers to {c:?}, should be {:?}", m.children[i as usize]);
                }
            }
        }
        REMOVE_RIGHTMOST => {
            if m.leaf && k == 0 {
                return Ok(());
            }
            match n.remove_rightmost_leaf() {
                Ok(it) => {
                    ensure!(m.leaf, "an internal node gives up an item");
                    let t = m.items.pop().unwrap();
                    ensure!(tri(&it) == t, "removed {:?}, should be {t:?}", tri(&it));
                }
                Err(c) => ensure!(
                    m.children.last() == Some(&c),
                    "refers to child {c:?}, should be {:?}",
                    m.children.last()
                ),
            }
        }
        ITEM_MUT => {
            for i in -1..(k as i64 + 2) {
                let v = r.b as u64 * 100 + (i + 1) as u64;
                let got = panics(|| {
                    n.item_mut(to_offset(i)).map(|x| {
                        let t = tri(x);
                        x.val = v;
                        t
                    })
                })
                .map_err(|e| format!("item_mut({i}) panics: {e}"))?;
                let want = if i >= 0 { m.items.get(i as usize).copied() } else { None };
                ensure!(got == want, "item_mut({i}) is {got:?}, should be {want:?}");
                if i >= 0 && (i as usize) < k {
                    m.items[i as usize].2 = v;
                }
            }
        }
        PARENT => {
            m.parent = if r.a % 3 == 0 { None } else { Some(ids.next()) };
            match n {
                Node::Leaf(l) if own => l.set_parent(m.parent),
                Node::Internal(x) if own => x.set_parent(m.parent),
                n => n.set_parent(m.parent),
            }
        }
        _ => {
            let d = crate::ledger::drops();
            n.forget();
            ensure!(crate::ledger::drops() == d, "forget() runs item destructors");
            m.items.clear();
            m.children.truncate(1);
        }
    }
    Ok(())
}

fn append(n: &mut N, sep: It, other: N, own: bool) -> raw_btree::node::Offset {
    match (n, other) {
        (Node::Leaf(a), Node::Leaf(b)) if own => a.append(sep, b),
        (Node::Internal(a), Node::Internal(b)) if own => a.append(sep, b),
        (n, o) => n.append(sep, o),
    }
}

