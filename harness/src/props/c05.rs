//! C05: address-based edits against a plain vector, with reinsertion at every returned address.
use super::*;
use crate::gen::{self, ensure, World, OWN};
use crate::ledger::{self, It};
use crate::store::Store;
use crate::walk::Pos;
use raw_btree::node::Address;
use std::sync::OnceLock;

pub const INS: u32 = OWN;
pub const REM: u32 = OWN + 1;
pub const REP: u32 = OWN + 2;
pub const INS_EXACT: u32 = OWN + 3;
pub const INS_BAD: u32 = OWN + 4;
pub const REM_UNOCC: u32 = OWN + 5;
/// Remove, then reinsert at the returned address.
pub const REM_INS: u32 = OWN + 6;

fn enumerated() -> &'static Vec<Case> {
    static E: OnceLock<Vec<Case>> = OnceLock::new();
    E.get_or_init(|| {
        shapes_with(3, &mut |g, items, out| {
            let step = if g.len() > 1 { 5 } else { 1 };
            let leaves: usize = g.iter().map(|x| x.len()).sum();
            // back addresses: one per item plus one per node
            let backs = items + leaves + if leaves > 1 { 1 } else { 0 } + if g.len() > 1 { g.len() } else { 0 };
            for i in (0..backs).step_by(step) {
                out.push(rec(INS, i as u32, 0));
            }
            for i in (0..items).step_by(step) {
                out.push(rec(REM_INS, i as u32, 0));
            }
            out.push(rec(INS_BAD, 0, 0));
            out.push(rec(REM_UNOCC, 0, 0));
        })
    })
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "an address-based edit restructured the tree (nodes split, merged) or hit a tree of height 2 or more",
        phases: |t| {
            vec![
                ph("every address-based edit of every small shape; histories", Exe::Checked, enumerated().len() as u64, n(t, 60_000)),
                ph("histories, shipped configuration", Exe::Ship, 0, n(t, 40_000)),
            ]
        },
        enumerate: |i, _, _| enumerated()[i as usize].clone(),
        gen: |r, _, _| {
            let mut c = some_tree(r, 120);
            edits(r, &mut c);
            c
        },
        run,
        describe: gen::describe,
    }
}

pub fn edits(r: &mut Rng, c: &mut Case) {
    let mut cursor = r.below(64);
    let local = r.chance(1, 2);
    let w = *[[8, 8, 2, 2, 1, 1, 2], [3, 12, 1, 1, 1, 1, 2], [12, 3, 1, 2, 1, 1, 2], [1, 3, 1, 0, 0, 1, 10]]
        .get(r.below(4) as usize)
        .unwrap();
    for _ in 0..r.range(1, 90) {
        cursor = cursor.wrapping_add(r.below(3));
        let a = if local && r.chance(5, 6) { cursor } else { r.u32() >> 8 };
        c.recs.push(rec(OWN + r.weighted(&w), a, r.below(4)));
    }
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    on_store!(c, obs, one)
}

fn one<S: Store<It>>(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut w = gen::build::<S>(c, obs)?;
    let mut model: Vec<u64> = w.model.iter().map(|m| m.uid).collect();
    for (i, r) in c.recs.iter().enumerate() {
        if r.k < OWN {
            continue;
        }
        let m = gen::mark(&w);
        let f = crate::fuel::for_len(model.len());
        crate::fuel::with(f, || edit(&mut w, &mut model, r, obs)).map_err(|e| format!("step {i}: {e}"))?;
        if gen::classify(m, &w, obs) || (S::TRACKED && gen::height_of(&w.tree) > 1) {
            obs.nontrivial = true
        }
        obs.say(|| format!("{i} {}: {}", gen::show_rec(r), w.snap().map(|s| s.shape()).unwrap_or_default()));
    }
    Ok(())
}

fn same<S: Store<It>>(w: &World<S>, model: &[u64], what: &str) -> Result<(), String> {
    let now: Vec<u64> = w.snap()?.items().iter().map(|x| x.1).collect();
    ensure!(now == model, "{what}: the sequence is {now:?}, should be {model:?}");
    ensure!(w.tree.len() == model.len(), "{what}: len() is {}, should be {}", w.tree.len(), model.len());
    ensure!(w.tree.is_empty() == model.is_empty(), "{what}: is_empty() is {}", w.tree.is_empty());
    Ok(())
}

fn inserted<S: Store<It>>(
    w: &World<S>,
    model: &[u64],
    rank: usize,
    got: Option<Address<S::Node>>,
    what: &str,
) -> Result<(), String> {
    same(w, model, what)?;
    let s = w.snap()?;
    let Some(a) = got else { return Err(format!("{what}: returned no address")) };
    let Some(p) = s.find(a) else {
        return Err(format!("{what}: returned {a:?}, which is not a valid address; shape {}", s.shape()));
    };
    ensure!(
        s.uid_at(p) == Some(model[rank]),
        "{what}: returned {}, which does not hold the inserted item; shape {}",
        s.show(Some(p)),
        s.shape()
    );
    Ok(())
}

/// One address-based edit, judged against the sequence `model` (uids).
pub fn edit<S: Store<It>>(w: &mut World<S>, model: &mut Vec<u64>, r: &Rec, obs: &mut Obs) -> Result<(), String> {
    let s = w.snap()?;
    let addrs = s.addresses();
    let shape = s.shape();
    let item = w.item(r.a as u64);
    let uid = item.uid;
    if model.is_empty() {
        if matches!(r.k, INS | INS_EXACT) {
            let got = unsafe { if r.k == INS { w.tree.insert_at(None, item) } else { w.tree.insert_exactly_at(None, item, None) } };
            model.push(uid);
            inserted(w, model, 0, got, "insertion into the empty tree")?;
        }
        return Ok(());
    }
    match r.k {
        INS => {
            let backs: Vec<Pos> = addrs.iter().copied().filter(|p| s.is_back(*p)).collect();
            let p = backs[r.a as usize % backs.len()];
            let rank = s.rank(&addrs, p);
            let got = unsafe { w.tree.insert_at(Some(s.addr(p)), item) };
            model.insert(rank, uid);
            inserted(w, model, rank, got, &format!("insert_at({}) in {shape}", s.show(Some(p))))?;
            obs.hit("insert_at");
        }
        INS_EXACT => {
            let backs: Vec<Pos> = addrs.iter().copied().filter(|p| s.is_back(*p) && s.is_leaf(*p)).collect();
            let p = backs[r.a as usize % backs.len()];
            let rank = s.rank(&addrs, p);
            let got = unsafe { w.tree.insert_exactly_at(Some(s.addr(p)), item, None) };
            model.insert(rank, uid);
            inserted(w, model, rank, got, &format!("insert_exactly_at({}) in {shape}", s.show(Some(p))))?;
            obs.hit("insert_exactly_at");
        }
        INS_BAD => {
            let backs: Vec<Pos> = addrs.iter().copied().filter(|p| s.is_back(*p) && !s.is_leaf(*p)).collect();
            if backs.is_empty() {
                return Ok(());
            }
            let p = backs[r.a as usize % backs.len()];
            let what = format!("insert_exactly_at({}) without right child in {shape}", s.show(Some(p)));
            if panics(|| unsafe { w.tree.insert_exactly_at(Some(s.addr(p)), item, None) }).is_ok() {
                return Err(format!("{what} did not panic"));
            }
            ensure!(w.snap()? == s, "{what} changed the tree");
            same(w, model, &what)?;
            ledger::check()?;
            obs.hit("insert_exactly_at panics");
        }
        REM | REM_INS => {
            let items: Vec<Pos> = addrs.iter().copied().filter(|p| s.is_item(*p)).collect();
            let rank = r.a as usize % items.len();
            let p = items[rank];
            let what = format!("remove_at({}) in {shape}", s.show(Some(p)));
            let got = unsafe { w.tree.remove_at(s.addr(p)) };
            let want = model.remove(rank);
            let Some((it, addr)) = got else { return Err(format!("{what} returned None")) };
            ensure!(it.uid == want && it.intact(), "{what} returned item {}, should be {want}", it.uid);
            drop(it);
            same(w, model, &what)?;
            obs.hit("remove_at");
            match addr {
                None => ensure!(model.is_empty(), "{what} returned no address although the tree is not empty"),
                Some(a) => {
                    ensure!(!model.is_empty(), "{what} returned an address in an empty tree");
                    let s2 = w.snap()?;
                    let Some(q) = s2.find(a) else {
                        return Err(format!("{what} returned {a:?}, which is not valid in {}", s2.shape()));
                    };
                    let a2 = s2.addresses();
                    ensure!(
                        s2.is_back(q) && s2.rank(&a2, q) == rank,
                        "{what} returned {}, which is not a place for an item at position {rank}; shape now {}",
                        s2.show(Some(q)),
                        s2.shape()
                    );
                    if r.k == REM_INS {
                        let item = w.item(r.a as u64);
                        let uid = item.uid;
                        let got = unsafe { w.tree.insert_at(Some(a), item) };
                        model.insert(rank, uid);
                        inserted(w, model, rank, got, &format!("{what}, then insert_at({})", s2.show(Some(q))))?;
                        obs.hit("reinsertions");
                    }
                }
            }
        }
        REM_UNOCC => {
            let un: Vec<Pos> = addrs.iter().copied().filter(|p| !s.is_item(*p)).collect();
            // all of them, or some of the many in a large tree
            let step = un.len() / 40 + 1;
            for p in un.into_iter().skip(r.a as usize % step).step_by(step) {
                let what = format!("remove_at({}) (unoccupied) in {shape}", s.show(Some(p)));
                let got = panics(|| unsafe { w.tree.remove_at(s.addr(p)) }).map_err(|m| format!("{what} panics: {m}"))?;
                ensure!(got.is_none(), "{what} removed something");
                ensure!(w.snap()? == s, "{what} changed the tree");
                same(w, model, &what)?;
                obs.hit("remove_at unoccupied");
            }
        }
        REP => {
            let items: Vec<Pos> = addrs.iter().copied().filter(|p| s.is_item(*p)).collect();
            let rank = r.a as usize % items.len();
            let p = items[rank];
            let what = format!("replace_at({}) in {shape}", s.show(Some(p)));
            let old = unsafe { w.tree.replace_at(s.addr(p), item) };
            ensure!(old.uid == model[rank] && old.intact(), "{what} returned item {}, should be {}", old.uid, model[rank]);
            model[rank] = uid;
            same(w, model, &what)?;
            let s2 = w.snap()?;
            ensure!(s2.find(s.addr(p)).and_then(|q| s2.uid_at(q)) == Some(uid), "{what} put the item elsewhere");
            obs.hit("replace_at");
        }
        _ => (),
    }
    Ok(())
}
