//! C25: a forest of trees in one storage, worked on through the storage's own operations, against one list per tree.
use super::*;
use crate::gen::ensure;
use crate::ledger::{self, It};
use crate::store::Store;
use crate::walk::{self, Pos, Snap};
use raw_btree::node::Address;
use raw_btree::storage::Dropper;
use raw_btree::Node;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::sync::OnceLock;

const FILL: u32 = 0;
const INSERT: u32 = 1;
const EXACT: u32 = 2;
const REMOVE: u32 = 3;
const REPLACE: u32 = 4;
const SEARCH: u32 = 5;
const MOVE: u32 = 6;
const JOIN: u32 = 7;
const SPLIT: u32 = 8;
const DROP: u32 = 9;
const NAVIGATE: u32 = 10;
const TRIM: u32 = 11;
const PUT_BACK: u32 = 12;
const NOPS: u32 = 13;
const OPS: [&str; NOPS as usize] = [
    "fill", "insert_at", "insert_exactly_at", "remove_at", "replace_at", "address_in", "move an item", "join two trees",
    "split a tree at its root", "release a tree", "navigate", "remove many", "take the last item below a node and put it back",
];
/// No more trees than this.
const MAX_TREES: usize = 12;
/// Nor larger ones.
const MAX_ITEMS: usize = 700;

/// params: storage, heap-owning items
fn enumerated() -> &'static Vec<Case> {
    static E: OnceLock<Vec<Case>> = OnceLock::new();
    E.get_or_init(|| {
        let mut v = vec![];
        let sizes = [0u32, 1, 3, 7, 8, 9, 13, 17, 30, 45, 60, 81];
        for (i, n) in sizes.iter().enumerate() {
            for (j, m) in sizes.iter().enumerate() {
                for op in 1..NOPS {
                    for k in 0..6u32 {
                        // keys spread over the tree
                        let at = (n + 1) * k / 5;
                        v.push(Case {
                            params: vec![1 + (i as u32 + j as u32 + op + k) % 4, k % 2],
                            recs: vec![
                                rec(FILL, *n << 4, k),
                                rec(FILL, *m << 4 | 1, k + 1),
                                rec(op, at << 4, 1 + k),
                                rec(REMOVE, at << 4, 0),
                                rec(INSERT, 1 << 4 | 1, 0),
                            ],
                        });
                    }
                }
            }
        }
        v
    })
}

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "an operation split or merged nodes of a tree, or joined or divided trees, while another non-empty tree lived in the same storage",
        phases: |t| {
            vec![
                ph("every operation on pairs of trees; forests", Exe::Checked, enumerated().len() as u64, n(t, 40_000)),
                ph("forests, shipped configuration", Exe::Ship, 0, n(t, 25_000)),
            ]
        },
        enumerate: |i, _, _| enumerated()[i as usize].clone(),
        gen: |r, _, _| {
            let mut c = Case { params: vec![r.below(5), r.below(2)], recs: vec![] };
            let trees = r.range(2, 4);
            for t in 0..trees {
                let n = match r.below(6) {
                    0 => r.below(4),
                    1 => r.below(20),
                    2..=4 => r.below(90),
                    _ => r.below(400),
                };
                c.recs.push(rec(FILL, n << 4 | t, r.below(8)));
            }
            let w: [u32; NOPS as usize] = match r.below(4) {
                0 => [1, 10, 4, 4, 2, 2, 4, 2, 2, 1, 1, 0, 1],
                1 => [1, 3, 1, 14, 1, 1, 4, 1, 1, 0, 1, 2, 1],
                2 => [3, 3, 1, 3, 1, 1, 3, 10, 8, 2, 1, 2, 1],
                _ => [1, 4, 2, 5, 2, 2, 10, 3, 3, 1, 1, 1, 2],
            };
            for _ in 0..r.range(1, 40) {
                let k = r.weighted(&w);
                let size = if matches!(k, FILL | TRIM) { r.below(60) } else { r.below(1 << 20) };
                c.recs.push(rec(k, size << 4 | r.below(16), r.below(64)));
            }
            c
        },
        run,
        describe: |c| {
            let mut s = format!("storage {}{}:", c.p(0) % 5, if c.p(1) % 2 == 1 { ", items owning heap memory" } else { "" });
            for r in &c.recs {
                s.push_str(&format!(" {}(tree {}, {}, {})", OPS[(r.k % NOPS) as usize], r.a & 15, r.a >> 4, r.b));
            }
            s
        },
    }
}

/// Few and small trees, for an interpreter.
pub fn shrink(c: &mut Case) {
    for r in &mut c.recs {
        if matches!(r.k, FILL | TRIM) {
            r.a = ((r.a >> 4) % 13) << 4 | r.a & 1;
        }
    }
    c.recs.truncate(12);
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    on_store!(c, obs, one)
}

struct Tree<S: Store<It>> {
    root: Option<S::Node>,
    /// uids in order
    model: Vec<u64>,
    snap: Snap<S::Node>,
}
struct Forest<S: Store<It>> {
    store: S,
    trees: Vec<Tree<S>>,
    heap: bool,
    keys: u64,
}

fn one<S: Store<It>>(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut f = Forest::<S> { store: S::default(), trees: vec![], heap: c.p(1) % 2 == 1, keys: 0 };
    for _ in 0..2 {
        f.trees.push(Tree { root: None, model: vec![], snap: Snap { nodes: vec![] } });
    }
    for (i, r) in c.recs.iter().enumerate() {
        f.step(r, obs).map_err(|e| format!("step {i} {}(tree {}, {}, {}): {e}", OPS[(r.k % NOPS) as usize], r.a & 15, r.a >> 4, r.b))?;
        obs.say(|| format!("{i}: {}", f.shapes()));
    }
    while !f.trees.is_empty() {
        f.release(0, c.recs.len() as u32)?;
    }
    ledger::check()?;
    ensure!(ledger::count_live() == 0, "LEDGER: {} items are alive after every tree was released", ledger::count_live());
    Ok(())
}

impl<S: Store<It>> Forest<S> {
    fn shapes(&self) -> String {
        self.trees.iter().map(|t| format!("[{}]", t.snap.shape())).collect::<Vec<_>>().join(" ")
    }
    fn item(&mut self) -> It {
        self.keys += 1;
        It::new(self.keys, self.heap)
    }
    fn walk(&self, root: Option<S::Node>, len: usize) -> Result<Snap<S::Node>, String> {
        walk::snap_of(&|id| unsafe { self.store.get(id) }, root, len)
    }
    fn fuel(&self) -> u64 {
        crate::fuel::for_len(self.trees.iter().map(|t| t.model.len()).max().unwrap_or(0))
    }

    /// Everything that must hold between operations. `touched`: trees whose nodes may have changed.
    fn check(&mut self, touched: &[usize]) -> Result<(), String> {
        let mut all = vec![];
        for i in 0..self.trees.len() {
            let t = &self.trees[i];
            let s = self.walk(t.root, t.model.len())?;
            ensure!(t.root.is_none() == t.model.is_empty(), "tree {i} holding {} items has root {:?}", t.model.len(), t.root);
            if touched.contains(&i) {
                let now: Vec<u64> = s.items().iter().map(|x| x.1).collect();
                ensure!(now == t.model, "tree {i} holds {now:?}, should hold {:?}", t.model);
                s.check_structure(t.model.len()).map_err(|e| format!("tree {i}: {e}; shape {}", s.shape()))?;
            } else {
                ensure!(s == t.snap, "tree {i} is not the one operated on, but changed; shape {} then {}", t.snap.shape(), s.shape());
            }
            all.extend(s.nodes.iter().map(|n| S::num(n.id)));
            self.trees[i].snap = s;
        }
        if S::TRACKED {
            let (a, r) = (crate::fuel::allocs() as usize, crate::fuel::releases() as usize);
            ensure!(a - r == all.len(), "{} nodes are allocated, {} are reachable; shapes {}", a - r, all.len(), self.shapes());
        }
        all.sort_unstable();
        ensure!(all.windows(2).all(|w| w[0] != w[1]), "two trees share a node; shapes {}", self.shapes());
        ledger::check()
    }

    /// Checks the forest after an operation on tree `t`.
    fn settle(&mut self, t: usize, obs: &mut Obs) -> Result<(), String> {
        let nodes = self.trees[t].snap.nodes.len();
        let height = self.trees[t].snap.height();
        self.check(&[t])?;
        let s = &self.trees[t].snap;
        if nodes != s.nodes.len() && nodes > 0 && self.trees.iter().enumerate().any(|(i, o)| i != t && !o.model.is_empty()) {
            obs.nontrivial = true;
            obs.hit(if nodes < s.nodes.len() { "splits" } else { "merges" });
            if height != s.height() {
                obs.hit("height changes");
            }
        }
        Ok(())
    }

    fn back(&self, t: usize, n: usize, leaf: bool) -> (Option<Pos>, usize) {
        let s = &self.trees[t].snap;
        let addrs = s.addresses();
        let backs: Vec<Pos> = addrs.iter().copied().filter(|p| s.is_back(*p) && (!leaf || s.is_leaf(*p))).collect();
        if backs.is_empty() {
            return (None, 0);
        }
        let p = backs[n % backs.len()];
        (Some(p), s.rank(&addrs, p))
    }

    /// Inserts at the n-th address; judged.
    fn insert(&mut self, t: usize, n: usize, exact: bool, item: It, obs: &mut Obs) -> Result<(), String> {
        let (p, rank) = self.back(t, n, exact);
        let uid = item.uid;
        let tree = &self.trees[t];
        let (root, addr) = (tree.root, p.map(|p| tree.snap.addr(p)));
        let what = format!("inserting at {} of {}", tree.snap.show(p), tree.snap.shape());
        let store = &mut self.store;
        let fuel = crate::fuel::for_len(tree.model.len());
        let (root, got) = crate::fuel::with(fuel, || unsafe {
            if exact {
                store.insert_exactly_at(root, addr, item, None)
            } else {
                store.insert_at(root, addr, item)
            }
        });
        let tree = &mut self.trees[t];
        tree.root = root;
        tree.model.insert(rank, uid);
        self.settle(t, obs).map_err(|e| format!("{what}: {e}"))?;
        let s = &self.trees[t].snap;
        let q = got.and_then(|a| s.find(a));
        ensure!(
            q.and_then(|q| s.uid_at(q)) == Some(uid),
            "{what}: the returned address is {got:?} ({}), which does not hold the inserted item; shape {}",
            s.show(q),
            s.shape()
        );
        Ok(())
    }

    /// Removes the n-th item; judged.
    fn remove(&mut self, t: usize, n: usize, obs: &mut Obs) -> Result<Option<It>, String> {
        let tree = &self.trees[t];
        if tree.model.is_empty() {
            return Ok(None);
        }
        let s = &tree.snap;
        let rank = n % tree.model.len();
        let p = s.addresses().into_iter().filter(|p| s.is_item(*p)).nth(rank).unwrap();
        let what = format!("removing at {} of {}", s.show(Some(p)), s.shape());
        let (root, addr) = (tree.root, s.addr(p));
        let fuel = self.fuel();
        let store = &mut self.store;
        let Some(r) = crate::fuel::with(fuel, || unsafe { store.remove_at(root, addr) }) else {
            return Err(format!("{what}: nothing is removed"));
        };
        let tree = &mut self.trees[t];
        tree.root = r.new_root;
        let want = tree.model.remove(rank);
        ensure!(r.item.uid == want && r.item.intact(), "{what}: gives item {}, should be {want}", r.item.uid);
        self.settle(t, obs).map_err(|e| format!("{what}: {e}"))?;
        let s = &self.trees[t].snap;
        match r.new_addr {
            None => ensure!(s.is_empty(), "{what}: gives no address although items remain"),
            Some(a) => match s.find(a) {
                Some(q) => ensure!(
                    s.is_back(q) && s.rank(&s.addresses(), q) == rank,
                    "{what}: gives address {}, which is not a place for an item at position {rank}; shape now {}",
                    s.show(Some(q)),
                    s.shape()
                ),
                None => return Err(format!("{what}: gives address {a:?}, which is not valid in {}", s.shape())),
            },
        }
        Ok(Some(r.item))
    }

    fn post_order(s: &Snap<S::Node>, n: usize, v: &mut Vec<usize>) {
        for c in &s.nodes[n].children {
            Self::post_order(s, *c, v);
        }
        v.push(S::num(s.nodes[n].id));
    }

    /// Releases every node of a tree, and forgets the tree.
    fn release(&mut self, t: usize, how: u32) -> Result<(), String> {
        let tree = self.trees.remove(t);
        if let Some(root) = tree.root {
            let mut want = vec![];
            Self::post_order(&tree.snap, 0, &mut want);
            want.pop();
            let mut ids = vec![];
            unsafe { self.store.get(root) }.visit_from_leaves(&self.store, |id| ids.push(id));
            let got: Vec<usize> = ids.iter().map(|i| S::num(*i)).collect();
            ensure!(
                got == want,
                "visit_from_leaves from the root visits {got:?}, the nodes below it in post-order are {want:?}; shape {}",
                tree.snap.shape()
            );
            ids.push(root);
            let live = ledger::count_live();
            let dropper = if how % 2 == 0 { self.store.start_dropping() } else { None };
            match dropper {
                Some(mut d) => ids.into_iter().for_each(|id| unsafe { d.drop_node(id) }),
                None => ids.into_iter().for_each(|id| drop(unsafe { self.store.release_node(id) })),
            }
            let gone = live - ledger::count_live();
            ensure!(gone == tree.model.len(), "LEDGER: releasing a tree of {} items drops {gone}", tree.model.len());
        }
        self.check(&[])
    }

    fn step(&mut self, r: &Rec, obs: &mut Obs) -> Result<(), String> {
        let (n, b) = ((r.a >> 4) as usize, r.b as usize);
        let op = r.k % NOPS;
        if op == FILL && (r.a & 15) as usize >= self.trees.len() && self.trees.len() < MAX_TREES {
            self.trees.push(Tree { root: None, model: vec![], snap: Snap { nodes: vec![] } });
        }
        if self.trees.is_empty() {
            return Ok(());
        }
        let t = (r.a & 15) as usize % self.trees.len();
        let u = (t + 1 + b % 16) % self.trees.len();
        if self.trees[t].model.len() > MAX_ITEMS && matches!(op, FILL | INSERT | EXACT | JOIN) {
            return Ok(());
        }
        obs.hit(OPS[op as usize]);
        match op {
            FILL => {
                for i in 0..n.min(400) {
                    let len = self.trees[t].model.len();
                    // at the end, at the front, in the middle, alternating, or all over
                    let at = match b % 8 {
                        0 | 1 => 4 * len,
                        2 => 0,
                        3 => len / 2,
                        4 if i % 2 == 0 => 0,
                        4 => 4 * len,
                        x => i.wrapping_mul(7 + 6 * x) + x,
                    };
                    let backs = self.trees[t].snap.addresses().len().max(1);
                    let item = self.item();
                    self.insert(t, at.min(backs * 4), i % 3 == 2, item, obs)?;
                }
            }
            TRIM => {
                for i in 0..n.min(400) {
                    let len = self.trees[t].model.len().max(1);
                    let at = match b % 4 {
                        0 => len - 1,
                        1 => 0,
                        2 => len / 2,
                        x => i.wrapping_mul(13) + x,
                    };
                    self.remove(t, at, obs)?;
                }
            }
            INSERT | EXACT => {
                let item = self.item();
                self.insert(t, n, op == EXACT, item, obs)?
            }
            REMOVE => drop(self.remove(t, n, obs)?),
            MOVE => {
                // both ways, several items
                for k in 0..1 + b / 16 {
                    if let Some(i) = self.remove(t, n + 5 * k, obs)? {
                        self.insert(u, n + 3 * k, b % 2 == 1, i, obs)?;
                    }
                }
            }
            REPLACE => {
                let tree = &self.trees[t];
                if tree.model.is_empty() {
                    return Ok(());
                }
                let rank = n % tree.model.len();
                let p = tree.snap.addresses().into_iter().filter(|p| tree.snap.is_item(*p)).nth(rank).unwrap();
                let addr = tree.snap.addr(p);
                let before = tree.snap.clone();
                let item = self.item();
                let uid = item.uid;
                let old = unsafe { self.store.replace_at(addr, item) };
                let want = std::mem::replace(&mut self.trees[t].model[rank], uid);
                ensure!(old.uid == want && old.intact(), "replace_at gives item {}, should be {want}", old.uid);
                self.check(&[t])?;
                let s = &self.trees[t].snap;
                ensure!(s.shape() == before.shape() && s.uid_at(p) == Some(uid), "replace_at put the item elsewhere");
            }
            SEARCH => {
                let tree = &self.trees[t];
                let Some(root) = tree.root else { return Ok(()) };
                let at: HashMap<u64, usize> = tree.model.iter().enumerate().map(|(i, u)| (*u, 2 * i + 1)).collect();
                let cmp = |i: &It, q: &usize| -> Ordering {
                    crate::fuel::cmp();
                    match at.get(&i.uid) {
                        Some(p) => p.cmp(q),
                        None => {
                            ledger::violation(format!("an item ({}) of another tree is compared", i.uid));
                            Ordering::Equal
                        }
                    }
                };
                let (s, addrs) = (&tree.snap, tree.snap.addresses());
                let all = 2 * tree.model.len() + 1;
                for q in (0..all).skip(n % 7).step_by(all / 60 + 1) {
                    let got = crate::fuel::with(self.fuel(), || unsafe { self.store.address_in(root, cmp, &q) });
                    let p = match got {
                        Ok(a) | Err(a) => s.find(a),
                    };
                    let ok = match got {
                        Ok(_) => q % 2 == 1 && p.and_then(|p| s.uid_at(p)) == Some(tree.model[q / 2]),
                        Err(_) => {
                            q % 2 == 0 && p.is_some_and(|p| s.is_leaf(p) && s.is_back(p) && s.rank(&addrs, p) == q / 2)
                        }
                    };
                    ensure!(
                        ok,
                        "address_in gives {got:?} ({}) for {} {}; shape {}",
                        s.show(p),
                        if q % 2 == 1 { "the item at position" } else { "the gap before position" },
                        q / 2,
                        s.shape()
                    );
                }
                ledger::check()?;
            }
            NAVIGATE => {
                let tree = &self.trees[t];
                let s = &tree.snap;
                let items: Vec<Pos> = s.addresses().into_iter().filter(|p| s.is_item(*p)).collect();
                for (i, p) in items.iter().enumerate() {
                    let a = s.addr(*p);
                    let g: Vec<Option<Address<S::Node>>> = crate::fuel::with(100_000, || unsafe {
                        vec![
                            self.store.next_item_address(a),
                            self.store.previous_item_address(a),
                            self.store.normalize(a),
                            self.store.next_item_or_back_address(a),
                            self.store.normalize(self.store.leaf_address(a)),
                        ]
                    });
                    let next = items.get(i + 1).copied();
                    let prev = if i > 0 { Some(items[i - 1]) } else { None };
                    let w = [next, prev, Some(*p), next, Some(*p)];
                    for (k, (g, w)) in g.iter().zip(w).enumerate() {
                        if k == 3 && w.is_none() {
                            continue;
                        }
                        let name =
                            ["next_item_address", "previous_item_address", "normalize", "next_item_or_back_address", "leaf_address, normalized,"][k];
                        let q = g.and_then(|g| s.find(g));
                        ensure!(
                            q == w && g.is_some() == w.is_some(),
                            "{name} at {} gives {g:?} ({}), should be {}; shape {}",
                            s.show(Some(*p)),
                            s.show(q),
                            s.show(w),
                            s.shape()
                        );
                    }
                }
            }
            JOIN => {
                let (a, z) = (&self.trees[t].snap, &self.trees[u].snap);
                let fits = |s: &Snap<S::Node>| !s.is_empty() && s.nodes[0].items.len() >= walk::MIN_ITEMS;
                if t == u || !fits(a) || !fits(z) || a.height() != z.height() || a.len() + z.len() > MAX_ITEMS {
                    return Ok(());
                }
                let others = self.trees.iter().enumerate().any(|(i, o)| i != t && i != u && !o.model.is_empty());
                let (l, r) = (self.trees[t].root.unwrap(), self.trees[u].root.unwrap());
                let item = self.item();
                let uid = item.uid;
                let root = unsafe { self.store.insert_node(Node::binary(None, l, item, r)) };
                let right = std::mem::take(&mut self.trees[u].model);
                self.trees[u].root = None;
                self.trees[t].root = Some(root);
                self.trees[t].model.push(uid);
                self.trees[t].model.extend(right);
                self.check(&[t, u])?;
                obs.hit("joins");
                obs.nontrivial |= others;
            }
            SPLIT => {
                let s = &self.trees[t].snap;
                if s.height() < 2 || self.trees.len() + s.nodes[0].items.len() > MAX_TREES {
                    return Ok(());
                }
                let parts: Vec<usize> = {
                    // item counts of the children
                    let uids = &self.trees[t].model;
                    let mut ends: Vec<usize> =
                        s.nodes[0].items.iter().map(|i| uids.iter().position(|u| *u == i.1).unwrap()).collect();
                    ends.push(uids.len());
                    ends
                };
                let want: Vec<usize> = s.nodes[0].children.iter().map(|c| S::num(s.nodes[*c].id)).collect();
                let seps: Vec<u64> = s.nodes[0].items.iter().map(|i| i.1).collect();
                let node = unsafe { self.store.release_node(self.trees[t].root.unwrap()) };
                let Node::Internal(mut node) = node else { return Err("the root is no internal node any more".into()) };
                let mut kids = vec![node.first_child_id()];
                let mut items = vec![];
                while node.item_count() > 0 {
                    let (_, i, right) = node.remove(0.into());
                    items.push(i);
                    kids.push(right);
                }
                drop(node);
                ensure!(
                    kids.iter().map(|k| S::num(*k)).eq(want.iter().copied()) && items.iter().map(|i| i.uid).eq(seps),
                    "the released root has other children or items than before"
                );
                let mut model = std::mem::take(&mut self.trees[t].model);
                let mut rest = vec![];
                for (i, k) in kids.into_iter().enumerate().rev() {
                    unsafe { self.store.get_mut(k) }.set_parent(None);
                    let from = if i == 0 { 0 } else { parts[i - 1] + 1 };
                    rest.push((Some(k), model.split_off(from)));
                    model.pop();
                }
                let (root, m) = rest.pop().unwrap();
                self.trees[t].root = root;
                self.trees[t].model = m;
                let mut touched = vec![t];
                while let Some((root, model)) = rest.pop() {
                    touched.push(self.trees.len());
                    self.trees.push(Tree { root, model, snap: Snap { nodes: vec![] } });
                }
                self.check(&touched)?;
                obs.hit("divisions");
                obs.nontrivial = true;
                // the separators go back, each to the end of its part
                for (i, item) in items.into_iter().enumerate() {
                    let t = touched[i];
                    // the last address is behind the last item
                    let s = &self.trees[t].snap;
                    let last = s.addresses().into_iter().filter(|p| s.is_back(*p)).count() - 1;
                    self.insert(t, last, false, item, obs)?;
                }
            }
            DROP => {
                if self.trees.len() > 1 {
                    self.release(t, r.b)?;
                }
            }
            _ => {
                // PUT_BACK
                let tree = &self.trees[t];
                if tree.snap.is_empty() {
                    return Ok(());
                }
                let top = &tree.snap.nodes[n % tree.snap.nodes.len()];
                // the last leaf below it
                let mut at = top;
                while let Some(c) = at.children.last() {
                    at = &tree.snap.nodes[*c];
                }
                let (leaf, count, uid) = (at.id, at.items.len(), at.items.last().unwrap().1);
                let root = tree.root;
                let top = top.id;
                let before = tree.snap.clone();
                let fuel = self.fuel();
                let store = &mut self.store;
                let (item, id) = crate::fuel::with(fuel, || unsafe { store.remove_rightmost_leaf_of(top) });
                ensure!(
                    item.uid == uid && item.intact() && id == leaf,
                    "remove_rightmost_leaf_of gives item {} from {id:?}, should be {uid} from {leaf:?}",
                    item.uid
                );
                ensure!(unsafe { store.get(leaf) }.item_count() == count - 1, "the leaf does not hold one item less");
                let addr = Address::new(leaf, (count - 1).into());
                let (root, got) = unsafe { store.insert_exactly_at(root, Some(addr), item, None) };
                self.trees[t].root = root;
                ensure!(
                    got.is_some_and(|a| a == addr),
                    "putting the item back at {addr:?} gives address {got:?}"
                );
                self.check(&[t])?;
                ensure!(self.trees[t].snap == before, "taking an item and putting it back changed the tree");
            }
        }
        Ok(())
    }
}
