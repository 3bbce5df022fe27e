//! C03: words over next/next_back/len/nth/copy against a double-ended queue.
use super::*;
use crate::iters;
use crate::gen::{self, ensure, Mi, World, OWN};
use crate::ledger::It;
use crate::store::Store;
use std::collections::VecDeque;
use std::sync::OnceLock;

const NEXT: u32 = OWN + 1;
const BACK: u32 = OWN + 2;
const LEN: u32 = OWN + 3;
const COPY: u32 = OWN + 4;
const NTH: u32 = OWN + 5;
const NTH_BACK: u32 = OWN + 6;
/// One call of a method that advances the iterator (see `iters::part`), or uses it up (`iters::rest`).
const PART: u32 = OWN + 7;
const REST: u32 = OWN + 8;
/// Runs every split of the whole iteration into a front and a back part.
const SPLITS: u32 = OWN + 10;
/// 0 iter, 1 &tree, 2 iter_mut, 3 &mut tree, 4 into_iter; + 8: write through retained references at the end
const KIND: usize = gen::P_EXTRA;

fn enumerated() -> &'static Vec<Case> {
    static E: OnceLock<Vec<Case>> = OnceLock::new();
    E.get_or_init(|| {
        let mut v = shapes_with(3, &mut |_, _, out| {
            for k in 0..3 {
                out.push(rec(SPLITS, k, 0));
            }
        });
        for (i, c) in v.iter_mut().enumerate() {
            // one third each: iter, iter_mut, into_iter (which runs one word)
            let kind = c.recs.last().unwrap().a * 2;
            c.params.push(kind);
            if kind == 4 {
                let mut r = Rng::new(i as u64);
                c.recs.pop();
                word(&mut r, c);
            }
        }
        v
    })
}

fn word(r: &mut Rng, c: &mut Case) {
    let style = r.below(5);
    let mut i = 0;
    for _ in 0..r.range(1, 24) {
        i += 1;
        let k = match style {
            0 => NEXT,
            1 => BACK,
            2 => [NEXT, BACK][i % 2],
            _ => r.pick(&[NEXT, NEXT, NEXT, BACK, BACK, BACK, LEN, COPY, NTH, NTH_BACK]),
        };
        let a = match r.below(4) {
            0 => 0,
            1 | 2 => r.below(8),
            _ => r.below(60),
        };
        c.recs.push(rec(k, a, 0));
        if r.chance(1, 6) {
            c.recs.push(rec(PART, r.below(iters::PART), r.pick(&[0, 0, 1, 2, 3, 7, 8, 20, 100])));
        }
    }
    if r.chance(1, 2) {
        c.recs.push(rec(REST, r.below(iters::REST), r.pick(&[0, 0, 1, 2, 3, 7, 20, 100])));
    }
}

/// Uses the iterator through calls that may keep an item while they advance.
pub fn by_calls(r: &Rec) -> bool {
    r.k == PART || r.k == REST
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "the iteration yields items from both ends of a tree of at least two nodes",
        phases: |t| {
            vec![
                ph("every split point on every small shape; words", Exe::Checked, enumerated().len() as u64, n(t, 250_000)),
                ph("words, shipped configuration", Exe::Ship, 0, n(t, 150_000)),
            ]
        },
        enumerate: |i, _, _| enumerated()[i as usize].clone(),
        gen: |r, _, _| {
            let mut c = some_tree(r, 150);
            c.params.resize(KIND, 0);
            c.params.push(r.below(5) + 8 * r.below(2));
            word(r, &mut c);
            c
        },
        run,
        describe: gen::describe,
    }
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    on_store!(c, obs, one)
}

trait Seen {
    fn mi(&self) -> Mi;
    fn write(&mut self, _v: u64) -> bool {
        false
    }
}
impl Seen for &It {
    fn mi(&self) -> Mi {
        Mi { key: self.key, uid: self.uid, val: self.val }
    }
}
impl Seen for &mut It {
    fn mi(&self) -> Mi {
        Mi { key: self.key, uid: self.uid, val: self.val }
    }
    fn write(&mut self, v: u64) -> bool {
        self.val = v;
        true
    }
}
impl Seen for It {
    fn mi(&self) -> Mi {
        Mi { key: self.key, uid: self.uid, val: self.val }
    }
}

struct Track {
    left: VecDeque<Mi>,
    front: usize,
    back: usize,
    /// uid -> value written
    written: Vec<(u64, u64)>,
}

fn judge<I: Seen>(what: &str, got: &Option<I>, want: Option<Mi>) -> Result<(), String> {
    let g = got.as_ref().map(|x| x.mi());
    ensure!(g == want, "{what} gave {g:?}, should be {want:?}");
    Ok(())
}
fn lens<I: ExactSizeIterator>(it: &I, t: &Track) -> Result<(), String> {
    let n = t.left.len();
    ensure!(
        it.size_hint() == (n, Some(n)) && it.len() == n,
        "size_hint() is {:?} and len() {} with {n} items left",
        it.size_hint(),
        it.len()
    );
    Ok(())
}

/// Steps one iterator through part of a word. Items obtained are written at once, or kept in `held`.
fn step<I: Seen, T: DoubleEndedIterator<Item = I> + ExactSizeIterator>(
    it: &mut T,
    t: &mut Track,
    r: &Rec,
    held: &mut Vec<I>,
    hold: bool,
) -> Result<(), String> {
    let mut take = |mut x: I, t: &mut Track| {
        let u = x.mi().uid;
        if hold {
            held.push(x)
        } else if x.write(u ^ 0x55AA) {
            t.written.push((u, u ^ 0x55AA))
        }
    };
    match r.k {
        NEXT => {
            for _ in 0..=(r.a % 64) {
                let g = it.next();
                judge("next()", &g, t.left.pop_front())?;
                match g {
                    Some(x) => {
                        t.front += 1;
                        take(x, t)
                    }
                    None => break,
                }
                lens(it, t)?;
            }
        }
        BACK => {
            for _ in 0..=(r.a % 64) {
                let g = it.next_back();
                judge("next_back()", &g, t.left.pop_back())?;
                match g {
                    Some(x) => {
                        t.back += 1;
                        take(x, t)
                    }
                    None => break,
                }
                lens(it, t)?;
            }
        }
        NTH => {
            let k = r.a as usize % 6;
            let g = it.nth(k);
            let m = k.min(t.left.len());
            t.left.drain(..m);
            judge("nth()", &g, t.left.pop_front())?;
            if let Some(x) = g {
                take(x, t)
            }
        }
        NTH_BACK => {
            let k = r.a as usize % 6;
            let g = it.nth_back(k);
            let m = k.min(t.left.len());
            t.left.truncate(t.left.len() - m);
            judge("nth_back()", &g, t.left.pop_back())?;
            if let Some(x) = g {
                take(x, t)
            }
        }
        PART => {
            let (how, n) = (r.a, r.b as usize % 128);
            let got = iters::part(it, how, n, |x| x.mi().uid);
            let mut m = t.left.drain(..).collect::<Vec<Mi>>().into_iter();
            let want = iters::part(&mut m, how, n, |x| x.uid);
            t.left = m.collect();
            ensure!(got == want, "advancing call {} with {n} gives {got:?}, should give {want:?}", how % iters::PART);
        }
        _ => (),
    }
    lens(it, t)
}

fn use_up<I: Seen, T: DoubleEndedIterator<Item = I> + ExactSizeIterator>(it: T, t: &mut Track, r: &Rec) -> Result<(), String> {
    let (how, n) = (r.a, r.b as usize % 128);
    let want = iters::rest(t.left.drain(..).collect::<Vec<Mi>>().into_iter(), how, n, |x| x.uid);
    let got = iters::rest(it, how, n, |x| x.mi().uid);
    ensure!(got == want, "consuming call {} with {n} gives {got:?}, should give {want:?}", how % iters::REST);
    Ok(())
}

fn finish<I: Seen, T: DoubleEndedIterator<Item = I> + ExactSizeIterator>(it: &mut T, t: &mut Track) -> Result<(), String> {
    if t.left.is_empty() {
        for i in 0..4 {
            let g = if i % 2 == 0 { it.next() } else { it.next_back() };
            ensure!(g.is_none(), "an exhausted iterator yields {:?}", g.map(|x| x.mi()));
            lens(it, t)?;
        }
    }
    Ok(())
}

fn one<S: Store<It>>(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let w = gen::build::<S>(c, obs)?;
    let r = crate::fuel::with(2_000_000, || go(w, c, obs));
    r
}

fn go<S: Store<It>>(w: World<S>, c: &Case, obs: &mut Obs) -> Result<(), String> {
    let World { mut tree, model, .. } = w;
    let nodes = crate::walk::snap(&tree)?.nodes.len();
    let kind = c.p(KIND) % 8 % 5;
    let hold = c.p(KIND) & 8 != 0;
    let mut t = Track { left: model.iter().copied().collect(), front: 0, back: 0, written: vec![] };
    let word: Vec<Rec> = c.recs.iter().copied().filter(|r| (NEXT..=PART).contains(&r.k)).collect();
    let end = c.recs.iter().rfind(|r| r.k == REST).copied();
    if let Some(r) = end {
        obs.hit("used up by one call");
        if word.iter().any(|r| r.k == BACK || r.k == NTH_BACK) {
            obs.add("used up by one call after taking from the back", (r.k == REST) as u64)
        }
    }
    obs.add("advancing calls", word.iter().filter(|r| r.k == PART).count() as u64);
    let splits = c.recs.iter().any(|r| r.k == SPLITS);
    if splits && kind < 4 {
        // front i items, then the rest from the back; and the mirror image
        for i in 0..=model.len() {
            for mirror in [false, true] {
                t.left = model.iter().copied().collect();
                let steps = |j: usize| rec(if (j < i) != mirror { NEXT } else { BACK }, 0, 0);
                if kind < 2 {
                    let mut it = tree.iter();
                    for j in 0..model.len() {
                        step(&mut it, &mut t, &steps(j), &mut vec![], false).map_err(|e| format!("split {i}: {e}"))?;
                    }
                    finish(&mut it, &mut t).map_err(|e| format!("split {i}: {e}"))?;
                } else {
                    for m in t.left.iter_mut() {
                        if let Some(x) = t.written.iter().rev().find(|x| x.0 == m.uid) {
                            m.val = x.1
                        }
                    }
                    t.written.clear();
                    let mut it = tree.iter_mut();
                    for j in 0..model.len() {
                        step(&mut it, &mut t, &steps(j), &mut vec![], false).map_err(|e| format!("split {i}: {e}"))?;
                    }
                    finish(&mut it, &mut t).map_err(|e| format!("split {i}: {e}"))?;
                }
            }
        }
        obs.add("split points", model.len() as u64 + 1);
        obs.nontrivial |= S::TRACKED && nodes > 1;
        return Ok(());
    }
    match kind {
        0 | 1 => {
            let mut it = if kind == 0 { tree.iter() } else { (&tree).into_iter() };
            let mut copies = vec![];
            lens(&it, &t)?;
            for r in &word {
                if r.k == COPY {
                    #[allow(clippy::clone_on_copy)]
                    let i = if r.a % 2 == 0 { it } else { it.clone() };
                    copies.push((i, Track { left: t.left.clone(), front: 0, back: 0, written: vec![] }, *r));
                } else {
                    step(&mut it, &mut t, r, &mut vec![], false)?;
                }
            }
            match &end {
                Some(r) => use_up(it, &mut t, r)?,
                None => finish(&mut it, &mut t)?,
            }
            for (mut it, mut t, r) in copies {
                obs.hit("copies");
                let mut it2 = it;
                #[allow(clippy::clone_on_copy)]
                let mut it3 = it.clone();
                let again = || Track { left: t.left.clone(), front: 0, back: 0, written: vec![] };
                let (mut t2, mut t3) = (again(), again());
                lens(&it3, &t3).map_err(|e| format!("clone: {e}"))?;
                step(&mut it, &mut t, &rec(BACK, 63, 0), &mut vec![], false).map_err(|e| format!("copy: {e}"))?;
                step(&mut it2, &mut t2, &rec(NEXT, 63, 0), &mut vec![], false).map_err(|e| format!("copy: {e}"))?;
                // the clone, to its end, by a word of its own
                let mut i = 0;
                while !t3.left.is_empty() {
                    let k = if (r.b >> (i % 3)) & 1 == 1 { NEXT } else { BACK };
                    step(&mut it3, &mut t3, &rec(k, 0, 0), &mut vec![], false).map_err(|e| format!("clone: {e}"))?;
                    i += 1;
                }
                finish(&mut it3, &mut t3).map_err(|e| format!("clone: {e}"))?;
            }
            obs.hit("shared iterations");
        }
        2 | 3 => {
            let mut held = vec![];
            {
                let mut it = if kind == 2 { tree.iter_mut() } else { (&mut tree).into_iter() };
                lens(&it, &t)?;
                for r in &word {
                    step(&mut it, &mut t, r, &mut held, hold)?;
                }
                match &end {
                    Some(r) => use_up(it, &mut t, r)?,
                    None => finish(&mut it, &mut t)?,
                }
                // references outlive the iterator
                for x in held.iter_mut() {
                    x.val = x.uid ^ 0x1234;
                    t.written.push((x.uid, x.val));
                }
            }
            let mut want = model.clone();
            for m in want.iter_mut() {
                if let Some(x) = t.written.iter().find(|x| x.0 == m.uid) {
                    m.val = x.1
                }
            }
            for m in &want {
                let g = tree.get(|a: &It, k: &u64| a.key.cmp(k), &m.key).map(|i| (i.uid, i.val));
                ensure!(g == Some((m.uid, m.val)), "after iter_mut the tree holds {g:?}, should hold {:?}", (m.uid, m.val));
            }
            let same: Vec<(u64, u64)> = crate::walk::snap(&tree)?.items();
            ensure!(same == model.iter().map(|m| (m.key, m.uid)).collect::<Vec<_>>(), "iter_mut changed the sequence");
            obs.hit("mutable iterations");
        }
        _ => {
            let mut it = tree.into_iter();
            lens(&it, &t)?;
            let mut held = vec![];
            for r in &word {
                step(&mut it, &mut t, r, &mut held, hold)?;
            }
            match &end {
                Some(r) => use_up(it, &mut t, r)?,
                None => finish(&mut it, &mut t)?,
            }
            obs.hit("consuming iterations");
        }
    }
    obs.nontrivial |= S::TRACKED && nodes > 1 && t.front > 0 && t.back > 0;
    Ok(())
}
