//! C04: every navigation function at every valid address, against the in-order list of addresses.
use super::*;
use crate::gen::{self, ensure};
use crate::ledger::It;
use crate::store::Store;
use crate::walk::{Pos, Snap};
use raw_btree::node::Address;
use raw_btree::RawBTree;
use std::sync::OnceLock;

fn enumerated() -> &'static Vec<Case> {
    static E: OnceLock<Vec<Case>> = OnceLock::new();
    E.get_or_init(|| shapes_with(4, &mut |_, _, out| out.push(rec(gen::OWN, 0, 0))))
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "the tree has internal nodes (height 2 or more); every valid address of it was evaluated",
        phases: |t| {
            vec![
                ph("every address of every small shape and of random trees", Exe::Checked, enumerated().len() as u64, n(t, 200_000)),
                ph("random trees, shipped configuration", Exe::Ship, 0, n(t, 100_000)),
            ]
        },
        enumerate: |i, _, _| enumerated()[i as usize].clone(),
        gen: |r, _, _| some_tree(r, 250),
        run,
        describe: gen::describe,
    }
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    on_store!(c, obs, one)
}

fn one<S: Store<It>>(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut w = gen::build::<S>(c, obs)?;
    let s = w.snap()?;
    let k = navigation(&mut w.tree, &s)?;
    obs.add("addresses", k as u64);
    obs.nontrivial |= S::TRACKED && s.height() > 1;
    Ok(())
}

/// Checks all navigation functions at every valid address. Returns the number of addresses.
pub fn navigation<S: Store<It>>(tree: &mut RawBTree<It, S>, s: &Snap<S::Node>) -> Result<usize, String> {
    let addrs = s.addresses();
    // first item / ends
    let items: Vec<Pos> = addrs.iter().copied().filter(|p| s.is_item(*p)).collect();
    expect(s, "first_item_address()", None, guard(|| tree.first_item_address())?, items.first().copied())?;
    // nearest item / back address after each position, nearest item / front address / leaf address before it
    let n = addrs.len();
    let mut next_item = vec![None; n];
    let mut next_back = vec![None; n];
    let (mut a, mut b) = (None, None);
    for i in (0..n).rev() {
        next_item[i] = a;
        next_back[i] = b;
        if s.is_item(addrs[i]) {
            a = Some(addrs[i])
        }
        if s.is_back(addrs[i]) {
            b = Some(addrs[i])
        }
    }
    let (mut prev, mut front, mut leaf) = (None, None, None);
    for i in 0..n {
        let p = addrs[i];
        let ad = s.addr(p);
        expect(s, "next_item_address", Some(p), guard(|| unsafe { tree.next_item_address(ad) })?, next_item[i])?;
        expect(s, "previous_item_address", Some(p), guard(|| unsafe { tree.previous_item_address(ad) })?, prev)?;
        expect(s, "next_back_address", Some(p), guard(|| unsafe { tree.next_back_address(ad) })?, next_back[i])?;
        expect(s, "previous_front_address", Some(p), guard(|| unsafe { tree.previous_front_address(ad) })?, front)?;
        let norm = if s.is_item(p) { Some(p) } else { next_item[i] };
        expect(s, "normalize", Some(p), guard(|| unsafe { tree.normalize(ad) })?, norm)?;
        if s.is_leaf(p) {
            leaf = Some(p)
        }
        if s.is_back(p) {
            expect(s, "leaf_address", Some(p), guard(|| unsafe { Some(tree.leaf_address(ad)) })?, leaf)?;
        }
        if s.is_front(p) {
            // the next item, or the back address right behind the last item
            let want = next_item[i].or(next_back[i]);
            let got = guard(|| unsafe { tree.next_item_or_back_address(ad) })?;
            expect(s, "next_item_or_back_address", Some(p), got, want)?;
        }
        if s.is_item(p) {
            prev = Some(p);
        }
        if s.is_front(p) {
            front = Some(p)
        }
        let want = s.uid_at(p);
        let got = panics(|| unsafe { tree.get_at(ad) }.map(|x| x.uid)).map_err(|m| at(s, "get_at", p, &m))?;
        ensure!(got == want, "get_at({}) is item {got:?}, should be {want:?}; shape {}", s.show(Some(p)), s.shape());
        let got = panics(|| unsafe { tree.get_mut_at(ad) }.map(|x| x.uid)).map_err(|m| at(s, "get_mut_at", p, &m))?;
        ensure!(got == want, "get_mut_at({}) is item {got:?}, should be {want:?}; shape {}", s.show(Some(p)), s.shape());
    }
    Ok(n)
}

fn at<I: Copy + PartialEq + std::fmt::Debug>(s: &Snap<I>, f: &str, p: Pos, m: &str) -> String {
    format!("{f}({}) panics ({m}); shape {}", s.show(Some(p)), s.shape())
}
type Got<I> = Result<Option<Address<I>>, String>;
fn guard<I>(f: impl FnOnce() -> Option<Address<I>>) -> Result<Got<I>, String> {
    Ok(panics(|| crate::fuel::with(100_000, f)))
}
fn expect<I: Copy + PartialEq + std::fmt::Debug>(
    s: &Snap<I>,
    f: &str,
    p: Option<Pos>,
    got: Got<I>,
    want: Option<Pos>,
) -> Result<(), String> {
    let got = got.map_err(|m| format!("{f}({}) panics ({m}); shape {}", s.show(p), s.shape()))?;
    let ok = match (got, want) {
        (None, None) => true,
        (Some(g), Some(w)) => s.find(g) == Some(w),
        _ => false,
    };
    ensure!(
        ok,
        "{f}({}) is {}, should be {}; shape {}",
        s.show(p),
        match got {
            None => "none".into(),
            Some(g) => match s.find(g) {
                Some(q) => s.show(Some(q)),
                None => format!("{g:?} (not a valid address)"),
            },
        },
        s.show(want),
        s.shape()
    );
    Ok(())
}

/// Item-to-item navigation in both directions only (used where navigation itself is not what is judged).
pub fn navigation_minimal<S: Store<It>>(tree: &RawBTree<It, S>, s: &Snap<S::Node>) -> Result<(), String> {
    let addrs = s.addresses();
    let items: Vec<Pos> = addrs.iter().copied().filter(|p| s.is_item(*p)).collect();
    for (i, p) in items.iter().enumerate() {
        let ad = s.addr(*p);
        let prev = if i > 0 { Some(items[i - 1]) } else { None };
        expect(s, "next_item_address", Some(*p), guard(|| unsafe { tree.next_item_address(ad) })?, items.get(i + 1).copied())?;
        expect(s, "previous_item_address", Some(*p), guard(|| unsafe { tree.previous_item_address(ad) })?, prev)?;
    }
    Ok(())
}
