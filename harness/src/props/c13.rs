//! C13: validate() against an independent checker, on correct trees and on trees corrupted through the node API.
use super::*;
use crate::gen::{self, ensure, World, OWN};
use crate::ledger::It;
use crate::store::Store;
use crate::walk::{Snap, MAX_CHILDREN, MAX_LEAF, MIN_ITEMS};
use raw_btree::Node;

// corruptions
const SWAP: u32 = OWN;
const SETKEY: u32 = OWN + 1;
const PARENT: u32 = OWN + 2;
const LEAF_ADD: u32 = OWN + 3;
const LEAF_DEL: u32 = OWN + 4;
const MOVE_CHILD: u32 = OWN + 5;
const HOIST: u32 = OWN + 6;
const DUP: u32 = OWN + 7;
const NUDGE: u32 = OWN + 8;
const OTHER_CMP: u32 = OWN + 9;
const KINDS: u32 = 10;

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "a corruption made a tree of at least two nodes incorrect in exactly one respect (order, parent link, \
               occupancy, or depth), or a correct tree of at least two nodes was validated",
        phases: |t| vec![ph("correct and corrupted trees", Exe::Checked, 0, n(t, 500_000))],
        enumerate: no_enum,
        gen: |r, _, _| {
            let mut c = some_tree(r, 120);
            c.params[0] = r.range(1, 2);
            let k = match r.below(8) {
                0 => 0,
                1..=5 => 1,
                6 => 2,
                _ => 4,
            };
            for _ in 0..k {
                c.recs.push(rec(OWN + r.below(KINDS), r.u32() >> 8, r.u32() >> 8));
            }
            c
        },
        run,
        describe: gen::describe,
    }
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    match c.p(0) % 2 {
        0 => one::<crate::store::Slab<It, { crate::store::LIFO }>>(c, obs),
        _ => one::<crate::store::Slab<It, { crate::store::FRESH }>>(c, obs),
    }
}

/// What is wrong with the tree, in the terms of the property.
fn faults<I: Copy + PartialEq + std::fmt::Debug>(s: &Snap<I>, rev: bool) -> Result<Vec<&'static str>, ()> {
    let mut v = vec![];
    if s.is_empty() {
        return Ok(v);
    }
    let items = s.items();
    if items.windows(2).any(|w| if rev { w[0].0 <= w[1].0 } else { w[0].0 >= w[1].0 }) {
        v.push("order");
    }
    let mut want: Vec<Option<I>> = vec![None; s.nodes.len()];
    for n in &s.nodes {
        for c in &n.children {
            want[*c] = Some(n.id);
        }
    }
    if s.nodes.iter().zip(&want).any(|(n, w)| n.parent != *w) {
        v.push("parent link");
    }
    let mut depth = None;
    for (i, n) in s.nodes.iter().enumerate() {
        let max = if n.leaf { MAX_LEAF } else { MAX_CHILDREN - 1 };
        if i > 0 && (n.items.len() < MIN_ITEMS || n.items.len() > max) {
            v.push("occupancy");
        }
        if i == 0 && (n.items.len() > max || n.items.is_empty()) {
            // the property says nothing about the root's occupancy
            return Err(());
        }
        if n.leaf {
            if depth.is_some() && depth != Some(n.depth) {
                v.push("depth");
            }
            depth = Some(n.depth);
        }
    }
    v.dedup();
    Ok(v)
}

fn one<S: Store<It>>(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut w = gen::build::<S>(c, obs)?;
    let mut rev = false;
    let r = (|| {
        for r in &c.recs {
            if r.k >= OWN && r.k < OWN + KINDS {
                if r.k == OTHER_CMP {
                    rev = true;
                } else {
                    corrupt(&mut w, r)?;
                }
                judge(&w, rev, obs)?;
            }
        }
        judge(&w, rev, obs)
    })();
    // Corrupted trees are not dropped the ordinary way: nothing promises that this works.
    crate::store::strict_leaks(false);
    w.tree.clear();
    r
}

#[cfg(not(debug_assertions))]
fn judge<S: Store<It>>(_: &World<S>, _: bool, _: &mut Obs) -> Result<(), String> {
    Err("validate() needs debug assertions".into())
}
#[cfg(debug_assertions)]
fn judge<S: Store<It>>(w: &World<S>, rev: bool, obs: &mut Obs) -> Result<(), String> {
    let s = w.snap()?;
    let Ok(bad) = faults(&s, rev) else { return Ok(()) };
    let res = panics(|| {
        w.tree.validate(|a: &It, b: &It| {
            a.touch();
            b.touch();
            if rev {
                b.key.cmp(&a.key)
            } else {
                a.key.cmp(&b.key)
            }
        })
    });
    if bad.is_empty() {
        if let Err(m) = res {
            return Err(format!("validate() panics on a correct tree ({m}); shape {}", s.shape()));
        }
        obs.hit("correct trees accepted");
    } else {
        ensure!(
            res.is_err(),
            "validate() accepts a tree with wrong {}; shape {}, keys {:?}",
            bad.join(" and "),
            s.shape(),
            crate::driver::clip(&format!("{:?}", s.items().iter().map(|x| x.0).collect::<Vec<_>>()), 300)
        );
        for b in &bad {
            obs.hit(match *b {
                "order" => "wrong order rejected",
                "parent link" => "wrong parent link rejected",
                "occupancy" => "wrong occupancy rejected",
                _ => "wrong depth rejected",
            });
        }
        if bad.len() > 1 {
            obs.hit("several faults at once");
        }
    }
    nodes(w, &s, rev, obs)?;
    obs.nontrivial |= s.nodes.len() > 1 && bad.len() <= 1;
    Ok(())
}

/// Each node by itself, with its parent and the separators around it, and each subtree.
#[cfg(debug_assertions)]
fn nodes<S: Store<It>>(w: &World<S>, s: &Snap<S::Node>, rev: bool, obs: &mut Obs) -> Result<(), String> {
    // parent, and the nodes and offsets of the separators on both sides
    type Sep = Option<(usize, usize)>;
    let mut ctx: Vec<(Option<usize>, Sep, Sep)> = vec![(None, None, None); s.nodes.len()];
    for (i, n) in s.nodes.iter().enumerate() {
        if !n.leaf && n.items.is_empty() {
            return Ok(()); // a child without separators: no tree has that
        }
        for (j, c) in n.children.iter().enumerate() {
            let (_, lo, hi) = ctx[i];
            ctx[*c] = (
                Some(i),
                if j > 0 { Some((i, j - 1)) } else { lo },
                if j < n.items.len() { Some((i, j)) } else { hi },
            );
        }
    }
    let cmp = |a: &It, b: &It| if rev { b.key.cmp(&a.key) } else { a.key.cmp(&b.key) };
    let less = |a: u64, b: u64| if rev { b < a } else { a < b };
    let mut good = vec![true; s.nodes.len()];
    for (i, n) in s.nodes.iter().enumerate() {
        let (parent, lo, hi) = ctx[i];
        let max = if n.leaf { MAX_LEAF } else { MAX_CHILDREN - 1 };
        let key = |p: (usize, usize)| s.nodes[p.0].items[p.1].0;
        let mut bad = vec![];
        if n.parent != parent.map(|p| s.nodes[p].id) {
            bad.push("parent link")
        }
        if n.items.windows(2).any(|w| !less(w[0].0, w[1].0)) {
            bad.push("order")
        }
        if let (Some(lo), Some(x)) = (lo, n.items.first()) {
            if !less(key(lo), x.0) {
                bad.push("left separator")
            }
        }
        if let (Some(hi), Some(x)) = (hi, n.items.last()) {
            if !less(x.0, key(hi)) {
                bad.push("right separator")
            }
        }
        if i > 0 && (n.items.len() < MIN_ITEMS || n.items.len() > max) {
            bad.push("occupancy")
        }
        let item = |p: (usize, usize)| unsafe { w.tree.node(s.nodes[p.0].id) }.item(p.1.into()).unwrap();
        let node = unsafe { w.tree.node(n.id) };
        let res = panics(|| node.validate(cmp, parent.map(|p| s.nodes[p].id), lo.map(item), hi.map(item)));
        match (&res, bad.is_empty()) {
            (Err(m), true) => return Err(format!("validate() of node {i} panics although nothing is wrong with it ({m}); shape {}", s.shape())),
            (Ok(()), false) => return Err(format!("validate() of node {i} accepts wrong {}; shape {}", bad.join(" and "), s.shape())),
            _ => (),
        }
        good[i] = bad.is_empty();
        obs.add("nodes rejected", !bad.is_empty() as u64);
    }
    // subtrees, leaves first: the depth below a node, if the subtree is right
    let mut depth: Vec<Option<usize>> = vec![None; s.nodes.len()];
    for i in (0..s.nodes.len()).rev() {
        let n = &s.nodes[i];
        depth[i] = match good[i] {
            false => None,
            true if n.leaf => Some(0),
            true => {
                let d: Vec<Option<usize>> = n.children.iter().map(|c| depth[*c]).collect();
                if d.iter().all(|x| *x == d[0]) {
                    d[0].map(|d| d + 1)
                } else {
                    None
                }
            }
        };
        // a few of them
        if i > 0 && (i * 7 + s.nodes.len()) % 5 != 0 {
            continue;
        }
        let (parent, lo, hi) = ctx[i];
        let item = |p: (usize, usize)| unsafe { w.tree.node(s.nodes[p.0].id) }.item(p.1.into()).unwrap();
        let res = panics(|| w.tree.validate_node(&cmp, n.id, parent.map(|p| s.nodes[p].id), lo.map(item), hi.map(item)));
        match (res, depth[i]) {
            (Ok(d), Some(want)) => ensure!(d == want, "validate_node() of node {i} gives depth {d}, should be {want}; shape {}", s.shape()),
            (Err(m), Some(_)) => return Err(format!("validate_node() of node {i} panics although nothing is wrong below ({m}); shape {}", s.shape())),
            (Ok(_), None) => return Err(format!("validate_node() of node {i} accepts a subtree that is not correct; shape {}", s.shape())),
            _ => (),
        }
    }
    Ok(())
}

fn corrupt<S: Store<It>>(w: &mut World<S>, r: &Rec) -> Result<(), String> {
    let s = w.snap()?;
    if s.is_empty() {
        return Ok(());
    }
    // (node, offset) of every item, in order
    let items: Vec<crate::walk::Pos> = s.addresses().into_iter().filter(|p| s.is_item(*p)).collect();
    let n = items.len();
    let keys: Vec<u64> = s.items().iter().map(|x| x.0).collect();
    if n == 0 {
        return Ok(());
    }
    let i = r.a as usize % n;
    let set = |w: &mut World<S>, i: usize, k: u64| {
        let p = items[i];
        let a = s.addr(p);
        if let Some(x) = unsafe { w.tree.get_mut_at(a) } {
            x.key = k
        }
    };
    let leaves = gen::leaves_in_order(&s);
    match r.k {
        SWAP => {
            // mostly neighbours: the hardest to see
            let j = if r.b % 3 > 0 { (i + 1) % n } else { r.b as usize % n };
            set(w, i, keys[j]);
            set(w, j, keys[i]);
        }
        DUP => {
            // equal neighbours
            let j = (i + 1) % n;
            set(w, i, keys[j]);
        }
        SETKEY => set(w, i, (r.b as u64) << 20),
        NUDGE => {
            // a new key anywhere between the neighbours keeps the tree correct
            let lo = if i == 0 { keys[0].saturating_sub(2) } else { keys[i - 1] };
            let hi = if i + 1 < n { keys[i + 1] } else { keys[n - 1] + 2 };
            if hi > lo {
                set(w, i, lo + r.b as u64 % (hi - lo + 1));
            }
        }
        PARENT => {
            let k = r.a as usize % s.nodes.len();
            let p = match r.b % (s.nodes.len() as u32 + 1) {
                0 => None,
                x => Some(s.nodes[x as usize - 1].id),
            };
            unsafe { w.tree.node_mut(s.nodes[k].id) }.set_parent(p);
        }
        LEAF_ADD => {
            // grow a leaf, in order, up to its capacity (one more than allowed)
            let l = leaves[r.a as usize % leaves.len()];
            let count = s.nodes[l].items.len();
            let last = match s.nodes[l].items.last() {
                Some(x) => x.0,
                None => return Ok(()),
            };
            let times = (r.b as usize % 7).min(MAX_LEAF + 1 - count.min(MAX_LEAF + 1));
            for j in 0..times {
                let it = w.item(last + 1 + j as u64);
                unsafe { w.tree.node_mut(s.nodes[l].id) }.insert((count + j).into(), it, None);
            }
        }
        LEAF_DEL => {
            let l = leaves[r.a as usize % leaves.len()];
            let count = s.nodes[l].items.len();
            let times = (r.b as usize % 8).min(count.saturating_sub((r.b >> 3) as usize % 2));
            for _ in 0..times {
                let k = unsafe { w.tree.node_mut(s.nodes[l].id) };
                let c = k.item_count();
                if c == 0 || (l == 0 && c == 1) {
                    break;
                }
                let off = (r.b >> 4) as usize % c;
                let _ = k.leaf_remove(off.into());
            }
        }
        MOVE_CHILD => {
            // move a subtree between neighbouring internal nodes, keeping order: changes occupancy only
            let mids: Vec<usize> = (0..s.nodes.len()).filter(|i| !s.nodes[*i].leaf && *i > 0 && s.nodes[*i].depth == 1).collect();
            if mids.len() < 2 {
                return Ok(());
            }
            let x = r.a as usize % (mids.len() - 1);
            for _ in 0..=(r.b % 4) {
                let (l, rr) = (s.nodes[mids[x]].id, s.nodes[mids[x + 1]].id);
                let from_left = r.b & 8 == 0;
                let (src, dst) = if from_left { (l, rr) } else { (rr, l) };
                let room = unsafe { w.tree.node(dst) }.item_count();
                if room >= MAX_CHILDREN {
                    break;
                }
                // Parent separator at index x of the root.
                unsafe {
                    if from_left {
                        let Ok((_, item, Some(child))) = w.tree.node_mut(src).pop_right() else { break };
                        let sep = w.tree.node_mut(s.nodes[0].id).replace(x.into(), item);
                        w.tree.node_mut(dst).push_left(sep, Some(child));
                        w.tree.node_mut(child).set_parent(Some(dst));
                    } else {
                        let Ok((item, Some(child))) = w.tree.node_mut(src).pop_left() else { break };
                        let sep = w.tree.node_mut(s.nodes[0].id).replace(x.into(), item);
                        w.tree.node_mut(dst).push_right(sep, Some(child));
                        w.tree.node_mut(child).set_parent(Some(dst));
                    }
                }
            }
        }
        HOIST => {
            // hang the outermost leaf of a three-level tree under the root, in order: wrong depth only
            if s.height() != 3 || s.nodes[0].items.len() >= MAX_CHILDREN - 1 {
                return Ok(());
            }
            let root = s.nodes[0].id;
            unsafe {
                if r.a % 2 == 0 {
                    let src = s.nodes[*s.nodes[0].children.last().unwrap()].id;
                    let Ok((_, item, Some(child))) = w.tree.node_mut(src).pop_right() else { return Ok(()) };
                    w.tree.node_mut(root).push_right(item, Some(child));
                    w.tree.node_mut(child).set_parent(Some(root));
                } else {
                    let src = s.nodes[s.nodes[0].children[0]].id;
                    let Ok((item, Some(child))) = w.tree.node_mut(src).pop_left() else { return Ok(()) };
                    w.tree.node_mut(root).push_left(item, Some(child));
                    w.tree.node_mut(child).set_parent(Some(root));
                }
            }
        }
        _ => (),
    }
    let _: Option<Node<It, S>> = None;
    Ok(())
}
