//! C16: where a search ends, against the sorted sequence of items.
use super::*;
use crate::gen::{self, ensure, ord, World, OWN};
use crate::ledger::It;
use crate::store::Store;
use crate::walk::{Pos, Snap};
use raw_btree::node::Address;
use raw_btree::Node;
use std::cmp::Ordering;
use std::sync::OnceLock;

/// Search for key of rank a (b = 0), for the key between ranks a-1 and a (b = 1), for any key a (b = 2),
/// coarsely (b = 3).
const SEARCH: u32 = OWN;
/// Search, then insert at the place found (through the address, or again by key).
const INSERT: u32 = OWN + 1;

fn enumerated() -> &'static Vec<Case> {
    static E: OnceLock<Vec<Case>> = OnceLock::new();
    E.get_or_init(|| {
        shapes_with(3, &mut |g, items, out| {
            let step = if g.len() > 1 { 7 } else { 1 };
            for i in (0..=items).step_by(step) {
                out.push(rec(INSERT, i as u32, 1));
                out.push(rec(SEARCH, i as u32, 0));
            }
        })
    })
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "a search ends in an internal node or at either edge of a leaf, on a tree of height 2 or more",
        phases: |t| {
            vec![
                ph("every key and gap of every small shape; trees with and without equivalent items", Exe::Checked, enumerated().len() as u64, n(t, 300_000)),
                ph("trees with and without equivalent items, shipped configuration", Exe::Ship, 0, n(t, 150_000)),
            ]
        },
        enumerate: |i, _, _| enumerated()[i as usize].clone(),
        gen: |r, _, _| {
            let mut c = if r.chance(1, 3) {
                let mut c = some_tree(r, 150);
                c.params.resize(gen::P_EXTRA, 0);
                c.params.push(0);
                c
            } else {
                gen::history(r, &gen::HistCfg { max_ops: 250, reads: false, ..Default::default() })
            };
            c.params.resize(gen::P_EXTRA, 0);
            // how many items are made equivalent to their neighbours
            c.params.push(r.pick(&[0, 0, 0, 1, 2, 3, 5, 8, 40]));
            for _ in 0..r.range(1, 40) {
                c.recs.push(rec(OWN + r.weighted(&[3, 2]), r.u32() >> 8, r.below(5)));
            }
            c
        },
        run,
        describe: gen::describe,
    }
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    on_store!(c, obs, one)
}

fn one<S: Store<It>>(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut w = gen::build::<S>(c, obs)?;
    // equivalent items: give runs of items the key of their first, in place
    let dup = c.p(gen::P_EXTRA);
    let mut run = 0;
    if dup > 0 && w.tree.len() > 1 {
        let mut prev: Option<u64> = None;
        let (mut i, mut left) = (0usize, 0u32);
        for it in w.tree.iter_mut() {
            if left > 0 {
                it.key = prev.unwrap();
                left -= 1;
                run += 1;
            } else {
                left = (i as u32).wrapping_mul(2654435761) >> 16;
                left %= dup + 1;
            }
            prev = Some(it.key);
            i += 1;
        }
        let s = w.snap()?;
        for (m, (k, u)) in w.model.iter_mut().zip(s.items()) {
            m.key = k;
            m.uid = u;
        }
    }
    obs.add("items made equivalent", run);
    search_all_ends(&w, obs)?;
    let stamp = |w: &World<S>| w.model.len();
    let mut snap = None;
    for (i, r) in c.recs.iter().enumerate() {
        if r.k != SEARCH && r.k != INSERT {
            continue;
        }
        let n = stamp(&w);
        if snap.is_none() {
            let s = w.snap()?;
            let a = s.addresses();
            snap = Some((s, a));
        }
        let (s, addrs) = snap.as_ref().unwrap();
        let key = match r.b % 4 {
            0 if n > 0 => w.model[r.a as usize % n].key,
            1 => match w.gap_key(r.a as usize % (n + 1)) {
                Some(k) => k,
                None => w.key(r.a),
            },
            3 if n > 0 => w.model[r.a as usize % n].key ^ 1,
            _ => w.key(r.a),
        };
        let found = crate::fuel::with(crate::fuel::for_len(n), || place(&w, s, addrs, key, r.b == 4, obs))
            .map_err(|e| format!("search {i} for {key}: {e}"))?;
        let wide = r.b == 4;
        crate::fuel::with(crate::fuel::for_len(n), || mutable(&mut w, key, wide, found.is_ok()))
            .map_err(|e| format!("search {i} for {key}: {e}"))?;
        if r.k == INSERT && r.b != 4 {
            let Err(at) = found else { continue };
            // A place for the key: using it keeps the sequence sorted.
            let item = w.item(key);
            let uid = item.uid;
            crate::fuel::with(crate::fuel::for_len(n), || unsafe { w.tree.insert_at(at, item) });
            let o = w.order;
            let rank = w.model.partition_point(|m| ord(o, m.key, key) == Ordering::Less);
            w.model.insert(rank, gen::Mi { key, uid, val: 0 });
            let t = w.snap()?;
            let got: Vec<u64> = t.items().iter().map(|i| i.0).collect();
            ensure!(
                got.windows(2).all(|x| ord(o, x[0], x[1]) != Ordering::Greater),
                "after inserting {key} at the place the search gave, the tree is no longer sorted"
            );
            ensure!(t.items().iter().any(|i| i.1 == uid), "the inserted item is not in the tree");
            snap = None;
            obs.hit("insertions at a search result");
        }
    }
    Ok(())
}

/// Equivalence by the top bits only: a comparator coarser than the order of the items.
fn coarse(order: u32, a: u64, b: u64) -> Ordering {
    let cut = |x: u64| match order {
        3 => x / 16,
        _ => x / (gen::SPREAD * 8),
    };
    match order {
        1 => cut(b).cmp(&cut(a)),
        2 => (a.wrapping_mul(0x9E3779B97F4A7C15) >> 58).cmp(&(b.wrapping_mul(0x9E3779B97F4A7C15) >> 58)),
        _ => cut(a).cmp(&cut(b)),
    }
}

type Found<S> = Result<Address<<S as raw_btree::Storage<It>>::Node>, Option<Address<<S as raw_btree::Storage<It>>::Node>>>;

fn place<S: Store<It>>(
    w: &World<S>,
    s: &Snap<S::Node>,
    addrs: &[Pos],
    key: u64,
    wide: bool,
    obs: &mut Obs,
) -> Result<Found<S>, String> {
    let o = w.order;
    let rel = |a: u64, k: u64| if wide { coarse(o, a, k) } else { ord(o, a, k) };
    let cmp = |a: &It, k: &u64| {
        crate::fuel::cmp();
        a.touch();
        rel(a.key, *k)
    };
    let items = s.items();
    let lo = items.partition_point(|i| rel(i.0, key) == Ordering::Less);
    let hi = items.partition_point(|i| rel(i.0, key) != Ordering::Greater);
    let got = w.tree.address_of(cmp, &key);
    // any key type
    let text = key.to_string();
    let got2 = w.tree.address_of(
        |a: &It, k: &str| {
            crate::fuel::cmp();
            rel(a.key, k.parse().unwrap())
        },
        text.as_str(),
    );
    ensure!(got == got2, "address_of depends on the type of the key: {got:?} and {got2:?}");
    match got {
        Ok(a) => {
            let Some(p) = s.find(a) else { return Err("address_of gives an address that is not valid in the tree".into()) };
            ensure!(s.is_item(p), "address_of gives Ok({}), which holds no item", s.show(Some(p)));
            let k = s.nodes[p.node].items[p.off as usize].0;
            ensure!(rel(k, key).is_eq(), "address_of gives Ok({}), the item there has key {k}", s.show(Some(p)));
            let rank = s.rank(addrs, p);
            ensure!(lo <= rank && rank < hi, "address_of gives Ok({}), item {rank}", s.show(Some(p)));
            obs.hit(if s.is_leaf(p) { "found in leaves" } else { "found in internal nodes" });
            if hi - lo > 1 {
                obs.hit("found among equivalents");
            }
            obs.nontrivial |= !s.is_leaf(p) && S::TRACKED;
        }
        Err(Some(a)) => {
            ensure!(lo == hi, "address_of gives Err although {} items compare equal", hi - lo);
            let Some(p) = s.find(a) else { return Err("address_of gives an address that is not valid in the tree".into()) };
            ensure!(s.is_leaf(p) && s.is_back(p), "address_of gives Err({}), not a leaf back address", s.show(Some(p)));
            let rank = s.rank(addrs, p);
            ensure!(
                rank == lo,
                "address_of gives Err({}), which is behind {rank} items; {lo} items are smaller than the key",
                s.show(Some(p))
            );
            obs.hit("not found");
            let edge = p.off == 0 || p.off as usize == s.count(p);
            obs.nontrivial |= edge && s.nodes.len() > 1 && S::TRACKED;
        }
        Err(None) => {
            ensure!(items.is_empty(), "address_of gives Err(None) on a tree of {} items", items.len());
            obs.hit("searches of the empty tree");
        }
    }
    // get and get_mut agree
    let at = got.ok();
    let there = match at {
        Some(a) => unsafe { w.tree.get_at(a) }.map(|i| i.uid),
        None => None,
    };
    let g = w.tree.get(cmp, &key).map(|i| i.uid);
    ensure!(g.is_some() == at.is_some(), "get gives {g:?} where address_of gives {got:?}");
    if hi - lo <= 1 {
        ensure!(g == there, "get gives item {g:?}, address_of gives item {there:?}");
    } else if let Some(u) = g {
        ensure!(items[lo..hi].iter().any(|i| i.1 == u), "get gives item {u}, which is not equivalent to the key");
    }
    // node by node
    if let Some(root) = w.tree.root() {
        let mut id = root;
        let mut by_offset = Err(None);
        let mut by_get: Option<u64> = None;
        for _ in 0..64 {
            let node: &Node<It, S> = unsafe { w.tree.node(id) };
            match node.offset_of(cmp, &key) {
                Ok(o) => {
                    by_offset = Ok(Address::new(id, o));
                    break;
                }
                Err((i, Some(c))) => {
                    ensure!(node.child_id(i) == c, "offset_of names child {i} but gives the identifier of another");
                    id = c
                }
                Err((i, None)) => {
                    by_offset = Err(Some(Address::new(id, i.into())));
                    break;
                }
            }
        }
        let mut id = root;
        for _ in 0..64 {
            match unsafe { w.tree.node(id) }.get(cmp, &key) {
                Ok(x) => {
                    by_get = x.map(|x| x.uid);
                    break;
                }
                Err(c) => id = c,
            }
        }
        ensure!(by_offset.is_ok() == got.is_ok(), "descending by offset_of gives {by_offset:?}, address_of gives {got:?}");
        ensure!(by_get.is_some() == got.is_ok(), "descending by get gives {by_get:?}, address_of gives {got:?}");
        if hi - lo <= 1 {
            ensure!(by_get == there, "descending by get gives item {by_get:?}, address_of gives item {there:?}");
        }
        match by_offset {
            Ok(a) => {
                let ok = s.find(a).and_then(|p| s.uid_at(p)).map(|u| items[lo..hi].iter().any(|i| i.1 == u));
                ensure!(ok == Some(true), "descending by offset_of ends at {a:?}, which is not an equivalent item");
            }
            Err(Some(a)) => {
                let p = s.find(a).ok_or("descending by offset_of ends outside the tree")?;
                ensure!(s.rank(addrs, p) == lo, "descending by offset_of ends at {}, not the place for the key", s.show(Some(p)));
            }
            Err(None) => return Err("descending by offset_of does not end".into()),
        }
    }
    Ok(got)
}

/// Keys below the first and above the last item, and get_mut against get.
fn search_all_ends<S: Store<It>>(w: &World<S>, obs: &mut Obs) -> Result<(), String> {
    let s = w.snap()?;
    let addrs = s.addresses();
    for g in [0, w.model.len()] {
        if let Some(k) = w.gap_key(g) {
            let _ = crate::fuel::with(crate::fuel::for_len(w.model.len()), || place(w, &s, &addrs, k, false, obs))
                .map_err(|e| format!("search for {k} at the end: {e}"))?;
        }
    }
    Ok(())
}

/// get_mut and descending by the mutable node lookup find an item exactly if the shared ones do.
fn mutable<S: Store<It>>(w: &mut World<S>, key: u64, wide: bool, found: bool) -> Result<(), String> {
    let o = w.order;
    let rel = move |a: u64, k: u64| if wide { coarse(o, a, k) } else { ord(o, a, k) };
    let cmp = move |a: &It, k: &u64| {
        crate::fuel::cmp();
        rel(a.key, *k)
    };
    let g = w.tree.get(cmp, &key).map(|i| (i.uid, i.key));
    let m = w.tree.get_mut(cmp, &key).map(|i| (i.uid, i.key));
    ensure!(g.is_some() == m.is_some() && m.is_some() == found, "get gives {g:?}, get_mut gives {m:?}");
    let alone = w.model.iter().filter(|m| rel(m.key, key).is_eq()).count() <= 1;
    ensure!(!alone || g == m, "get gives {g:?}, get_mut gives {m:?}");
    if let Some((_, k)) = m {
        ensure!(rel(k, key).is_eq(), "get_mut gives an item with key {k}");
    }
    if let Some(mut id) = w.tree.root() {
        for _ in 0..64 {
            match unsafe { w.tree.node_mut(id) }.get_mut(cmp, &key) {
                Ok(x) => {
                    let x = x.map(|i| (i.uid, i.key));
                    ensure!(x.is_some() == found && (!alone || x == g), "descending by get_mut gives {x:?}, get gives {g:?}");
                    return Ok(());
                }
                Err(c) => id = *c,
            }
        }
        return Err("descending by get_mut does not end".into());
    }
    Ok(())
}
