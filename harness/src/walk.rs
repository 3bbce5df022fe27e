//! Independent structural walk of a tree through the public node API, and the oracles derived from it.

use crate::ledger::Peek;
use crate::store::Store;
use raw_btree::node::{Address, Offset};
use raw_btree::{Node, RawBTree, M};

#[derive(Clone, Debug, PartialEq)]
pub struct NodeSnap<I> {
    pub id: I,
    pub parent: Option<I>,
    pub leaf: bool,
    /// (key, uid)
    pub items: Vec<(u64, u64)>,
    /// indices into Snap::nodes
    pub children: Vec<usize>,
    pub depth: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Snap<I> {
    /// Pre-order; the root is nodes[0].
    pub nodes: Vec<NodeSnap<I>>,
}

/// Node minimum and maximum item counts (non-root).
pub const MIN_ITEMS: usize = M / 2 - 1;
pub const MAX_LEAF: usize = M;
pub const MAX_CHILDREN: usize = M;

/// An address of the in-order sequence: (node index, offset from -1).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Pos {
    pub node: usize,
    pub off: i64,
}

pub fn to_offset(o: i64) -> Offset {
    if o < 0 {
        Offset::before()
    } else {
        (o as usize).into()
    }
}

pub fn snap<T: Peek, S: Store<T>>(t: &RawBTree<T, S>) -> Result<Snap<S::Node>, String> {
    snap_of(&|id| unsafe { t.node(id) }, t.root(), t.len())
}

/// Walk of the tree with the given root, nodes being looked up with `get`.
pub fn snap_of<'a, T: Peek + 'a, S: Store<T> + 'a>(
    get: &dyn Fn(S::Node) -> &'a Node<T, S>,
    root: Option<S::Node>,
    len: usize,
) -> Result<Snap<S::Node>, String> {
    let mut s = Snap { nodes: vec![] };
    if let Some(root) = root {
        visit(get, root, 0, &mut s, 4 * len + 64)?;
    }
    Ok(s)
}

fn visit<'a, T: Peek + 'a, S: Store<T> + 'a>(
    get: &dyn Fn(S::Node) -> &'a Node<T, S>,
    id: S::Node,
    depth: usize,
    s: &mut Snap<S::Node>,
    limit: usize,
) -> Result<usize, String> {
    if s.nodes.len() > limit || depth > 64 {
        return Err("STRUCTURE: more nodes reachable than the tree can have (cycle or sharing)".into());
    }
    let node = get(id);
    let leaf = matches!(node, Node::Leaf(_));
    let n = node.item_count();
    let mut items = Vec::with_capacity(n);
    for i in 0..n {
        match node.item(i.into()) {
            Some(it) => {
                it.ok()?;
                items.push((it.key(), it.uid()))
            }
            None => return Err(format!("STRUCTURE: node has item_count {n} but item({i}) is None")),
        }
    }
    let me = s.nodes.len();
    s.nodes.push(NodeSnap {
        id,
        parent: node.parent(),
        leaf,
        items,
        children: vec![],
        depth,
    });
    let cc = node.child_count();
    let mut children = Vec::with_capacity(cc);
    for i in 0..cc {
        match get(id).child_id_opt(i) {
            Some(c) => children.push(visit(get, c, depth + 1, s, limit)?),
            None => return Err(format!("STRUCTURE: node has child_count {cc} but child_id_opt({i}) is None")),
        }
    }
    s.nodes[me].children = children;
    Ok(me)
}

impl<I: Copy + PartialEq + std::fmt::Debug> Snap<I> {
    pub fn len(&self) -> usize {
        self.nodes.iter().map(|n| n.items.len()).sum()
    }
    pub fn is_empty(&self) -> bool {
        self.nodes.is_empty()
    }
    pub fn height(&self) -> usize {
        self.nodes.iter().map(|n| n.depth + 1).max().unwrap_or(0)
    }

    /// Items in order.
    pub fn items(&self) -> Vec<(u64, u64)> {
        let mut v = Vec::with_capacity(self.nodes.len() * 4);
        if !self.nodes.is_empty() {
            self.items_in(0, &mut v);
        }
        v
    }
    fn items_in(&self, n: usize, v: &mut Vec<(u64, u64)>) {
        let node = &self.nodes[n];
        for i in 0..node.items.len().max(node.children.len()) {
            if let Some(c) = node.children.get(i) {
                self.items_in(*c, v);
            }
            if let Some(it) = node.items.get(i) {
                v.push(*it);
            }
        }
    }

    /// Every valid address in in-order sequence.
    pub fn addresses(&self) -> Vec<Pos> {
        let mut v = vec![];
        if !self.nodes.is_empty() {
            self.addr_in(0, &mut v);
        }
        v
    }
    fn addr_in(&self, n: usize, v: &mut Vec<Pos>) {
        let node = &self.nodes[n];
        v.push(Pos { node: n, off: -1 });
        for i in 0..=node.items.len() {
            if let Some(c) = node.children.get(i) {
                self.addr_in(*c, v);
            }
            v.push(Pos { node: n, off: i as i64 });
        }
    }
    pub fn count(&self, p: Pos) -> usize {
        self.nodes[p.node].items.len()
    }
    pub fn is_item(&self, p: Pos) -> bool {
        p.off >= 0 && (p.off as usize) < self.count(p)
    }
    pub fn is_back(&self, p: Pos) -> bool {
        p.off >= 0
    }
    pub fn is_front(&self, p: Pos) -> bool {
        p.off < self.count(p) as i64
    }
    pub fn is_leaf(&self, p: Pos) -> bool {
        self.nodes[p.node].leaf
    }
    pub fn addr(&self, p: Pos) -> Address<I> {
        Address::new(self.nodes[p.node].id, to_offset(p.off))
    }
    pub fn show(&self, p: Option<Pos>) -> String {
        match p {
            None => "none".into(),
            Some(p) => format!("@{}:{}", p.node, p.off),
        }
    }
    /// Position of an address returned by the tree, if it is a valid address of it.
    pub fn find(&self, a: Address<I>) -> Option<Pos> {
        let node = self.nodes.iter().position(|n| n.id == a.node)?;
        let off = match a.offset.value() {
            None => -1,
            Some(o) if o <= self.nodes[node].items.len() => o as i64,
            Some(_) => return None,
        };
        Some(Pos { node, off })
    }
    pub fn uid_at(&self, p: Pos) -> Option<u64> {
        if p.off < 0 {
            return None;
        }
        self.nodes[p.node].items.get(p.off as usize).map(|x| x.1)
    }
    /// Number of items before the given address.
    pub fn rank(&self, addrs: &[Pos], p: Pos) -> usize {
        let mut n = 0;
        for q in addrs {
            if *q == p {
                return n;
            }
            if self.is_item(*q) {
                n += 1;
            }
        }
        n
    }

    /// Structural invariants (everything except item order).
    pub fn check_structure(&self, len: usize) -> Result<(), String> {
        if self.len() != len {
            return Err(format!("STRUCTURE: len() is {len} but {} items are stored", self.len()));
        }
        if self.nodes.is_empty() {
            return Ok(());
        }
        let mut leaf_depth = None;
        // Identifiers must be pairwise distinct.
        let mut parent_of: Vec<Option<usize>> = vec![None; self.nodes.len()];
        for (i, n) in self.nodes.iter().enumerate() {
            for c in &n.children {
                parent_of[*c] = Some(i);
            }
        }
        for (i, n) in self.nodes.iter().enumerate() {
            let root = i == 0;
            match (parent_of[i], n.parent) {
                (None, None) => (),
                (Some(p), Some(q)) if self.nodes[p].id == q => (),
                (want, got) => {
                    return Err(format!(
                        "STRUCTURE: node {i} has parent link {got:?}, its actual parent is {:?}",
                        want.map(|w| self.nodes[w].id)
                    ))
                }
            }
            if n.leaf {
                if !n.children.is_empty() {
                    return Err("STRUCTURE: a leaf has children".into());
                }
                match leaf_depth {
                    None => leaf_depth = Some(n.depth),
                    Some(d) if d == n.depth => (),
                    Some(d) => return Err(format!("STRUCTURE: leaves at depths {d} and {}", n.depth)),
                }
                if n.items.len() > MAX_LEAF {
                    return Err(format!("STRUCTURE: a leaf holds {} items", n.items.len()));
                }
            } else {
                if n.children.len() != n.items.len() + 1 {
                    return Err(format!(
                        "STRUCTURE: an internal node holds {} items and {} children",
                        n.items.len(),
                        n.children.len()
                    ));
                }
                if n.children.len() > MAX_CHILDREN {
                    return Err(format!("STRUCTURE: an internal node has {} children", n.children.len()));
                }
            }
            if n.items.is_empty() {
                return Err(format!("STRUCTURE: node {i} is empty"));
            }
            if !root && n.items.len() < MIN_ITEMS {
                return Err(format!("STRUCTURE: non-root node {i} holds only {} items", n.items.len()));
            }
        }
        Ok(())
    }

    pub fn check_distinct(&self, num: impl Fn(I) -> usize) -> Result<(), String> {
        let mut v: Vec<usize> = self.nodes.iter().map(|n| num(n.id)).collect();
        v.sort_unstable();
        if v.windows(2).any(|w| w[0] == w[1]) {
            return Err("STRUCTURE: a node is reachable twice".into());
        }
        Ok(())
    }

    /// Nested item counts, e.g. `[(3 4) 1]`: identifies the shape.
    pub fn shape(&self) -> String {
        fn go<I>(s: &Snap<I>, n: usize, out: &mut String) {
            use std::fmt::Write;
            let x = &s.nodes[n];
            let _ = write!(out, "{}", x.items.len());
            if !x.leaf {
                out.push('(');
                for (i, c) in x.children.iter().enumerate() {
                    if i > 0 {
                        out.push(' ');
                    }
                    go(s, *c, out);
                }
                out.push(')');
            }
        }
        let mut o = String::new();
        if !self.nodes.is_empty() {
            go(self, 0, &mut o);
        }
        o
    }
    pub fn shape_hash(&self) -> u64 {
        let mut h = crate::case::Fnv::new();
        for n in &self.nodes {
            h.u64((n.items.len() as u64) << 32 | (n.depth as u64) << 1 | n.leaf as u64);
        }
        h.0
    }
}
