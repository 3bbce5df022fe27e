//! C12: visitors against the post-order of the structural walk.
use super::*;
use crate::gen::{self, ensure};
use crate::ledger::It;
use crate::store::Store;
use crate::walk::Snap;
use std::sync::OnceLock;

fn enumerated() -> &'static Vec<Case> {
    static E: OnceLock<Vec<Case>> = OnceLock::new();
    E.get_or_init(|| shapes_with(4, &mut |_, _, out| out.push(rec(gen::OWN, 0, 0))))
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "the visited tree has at least two nodes",
        phases: |t| {
            vec![
                ph("small shapes; random trees", Exe::Checked, enumerated().len() as u64, n(t, 200_000)),
                ph("random trees, shipped configuration", Exe::Ship, 0, n(t, 100_000)),
            ]
        },
        enumerate: |i, _, _| enumerated()[i as usize].clone(),
        gen: |r, _, _| some_tree(r, 300),
        run,
        describe: gen::describe,
    }
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    on_store!(c, obs, one)
}

fn post<I>(s: &Snap<I>, n: usize, out: &mut Vec<usize>) {
    for c in &s.nodes[n].children {
        post(s, *c, out);
    }
    out.push(n);
}

fn one<S: Store<It>>(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut w = gen::build::<S>(c, obs)?;
    let s = w.snap()?;
    let mut want = vec![];
    if !s.is_empty() {
        post(&s, 0, &mut want);
    }
    crate::fuel::with(1_000_000, || -> Result<(), String> {
        let mut ids = vec![];
        w.tree.visit_from_leaves(|id| ids.push(id));
        order(&s, &ids, &want, "visit_from_leaves")?;
        let mut ids = vec![];
        let mut bad = None;
        w.tree.visit_from_leaves_mut(|id, node| {
            // the node is the one bound to the identifier
            let i = s.nodes.iter().position(|n| n.id == id);
            let items: Vec<(u64, u64)> = (0..node.item_count()).map(|j| node.item(j.into()).map(|x| (x.key, x.uid)).unwrap_or((0, 0))).collect();
            let same = i.map(|i| {
                let n = &s.nodes[i];
                n.items == items
                    && n.parent == node.parent()
                    && n.children.iter().map(|c| s.nodes[*c].id).collect::<Vec<_>>() == node.children().collect::<Vec<_>>()
            });
            if same != Some(true) && bad.is_none() {
                bad = Some(format!("visit_from_leaves_mut passes a node with items {items:?} for identifier {id:?}"));
            }
            for j in 0..node.item_count() {
                if let Some(x) = node.item_mut(j.into()) {
                    x.val = x.uid ^ 0xABCD;
                }
            }
            ids.push(id)
        });
        if let Some(b) = bad {
            return Err(b);
        }
        order(&s, &ids, &want, "visit_from_leaves_mut")?;
        Ok(())
    })?;
    ensure!(w.snap()? == s, "visiting changed the tree");
    for n in &s.nodes {
        for (j, (_, u)) in n.items.iter().enumerate() {
            let v = unsafe { w.tree.node(n.id) }.item(j.into()).map(|x| x.val);
            ensure!(v == Some(u ^ 0xABCD), "a modification made through visit_from_leaves_mut was lost");
        }
    }
    obs.add("nodes visited", s.nodes.len() as u64);
    if s.is_empty() {
        obs.hit("empty trees");
    }
    obs.nontrivial |= S::TRACKED && s.nodes.len() > 1;
    Ok(())
}

fn order<I: PartialEq + Copy + std::fmt::Debug>(s: &Snap<I>, ids: &[I], want: &[usize], what: &str) -> Result<(), String> {
    let got: Vec<Option<usize>> = ids.iter().map(|id| s.nodes.iter().position(|n| n.id == *id)).collect();
    let w: Vec<Option<usize>> = want.iter().map(|x| Some(*x)).collect();
    ensure!(got == w, "{what} visits nodes (numbered in pre-order) {got:?}, should be {want:?}");
    Ok(())
}
