//! C18: items against their keys.
use super::*;
use crate::gen::ensure;
use raw_btree::Item;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::fmt::{Debug, Display};

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "the pair of items has equal keys with different values, or keys that are incomparable or of a coarse order",
        phases: |t| {
            vec![
                ph("pairs of items over eight key types", Exe::Checked, KINDS * 64, n(t, 600_000)),
                ph("pairs of items, shipped configuration", Exe::Ship, 0, n(t, 400_000)),
            ]
        },
        enumerate: |i, _, _| Case {
            params: vec![(i / 64) as u32],
            recs: vec![rec(0, (i % 8) as u32, 1), rec(0, (i / 8 % 8) as u32, 2)],
        },
        gen: |r, _, _| {
            let mut c = Case { params: vec![r.below(KINDS as u32)], recs: vec![] };
            let m = r.pick(&[2, 4, 12, 1000, u32::MAX]);
            for _ in 0..r.range(2, 8) {
                c.recs.push(rec(0, r.below(m), r.below(4)));
            }
            c
        },
        run,
        describe: |c| format!("key type {}: {:?}", NAMES[c.p(0) as usize % KINDS as usize], c.recs.iter().map(|r| (r.a, r.b)).collect::<Vec<_>>()),
    }
}
const KINDS: u64 = 8;
const NAMES: [&str; 8] = ["u64", "i32", "String", "Vec<u8>", "f64", "coarse", "(u8, char)", "Option<Box<str>>"];

/// Equality and order look at a quarter of the number only.
#[derive(Clone, Debug)]
struct Coarse(u32);
impl PartialEq for Coarse {
    fn eq(&self, o: &Self) -> bool {
        self.0 / 4 == o.0 / 4
    }
}
impl Eq for Coarse {}
impl PartialOrd for Coarse {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Coarse {
    fn cmp(&self, o: &Self) -> Ordering {
        // reversed, too
        (o.0 / 4).cmp(&(self.0 / 4))
    }
}
impl Display for Coarse {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "c{}", self.0)
    }
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let f = |x: u32| match x % 8 {
        0 => f64::NAN,
        1 => -0.0,
        2 => 0.0,
        3 => f64::INFINITY,
        4 => -1.5,
        _ => x as f64,
    };
    match c.p(0) as u64 % KINDS {
        0 => total(c, obs, |x| x as u64, |k| k.to_string()),
        1 => total(c, obs, |x| x as i32, |k| k.to_string()),
        2 => {
            total(c, obs, |x| format!("k{x}"), |k| k.to_string())?;
            borrowed::<String, str>(c, |x| format!("k{x}"))
        }
        3 => {
            let mk = |x: u32| x.to_le_bytes()[..(x % 5) as usize].to_vec();
            partial(c, obs, mk)?;
            ordered(c, obs, mk)?;
            borrowed::<Vec<u8>, [u8]>(c, mk)
        }
        4 => {
            partial(c, obs, f)?;
            printed(c, f, |k| k.to_string())
        }
        5 => total(c, obs, Coarse, |k| k.to_string()),
        6 => {
            let mk = |x: u32| (x as u8, char::from_u32(0x61 + x % 26).unwrap());
            partial(c, obs, mk)?;
            ordered(c, obs, mk)
        }
        _ => {
            let mk = |x: u32| (x % 3 != 0).then(|| x.to_string().into_boxed_str());
            partial(c, obs, mk)?;
            ordered(c, obs, mk)
        }
    }
}

fn total<K: Ord + Clone + Debug + Display>(
    c: &Case,
    obs: &mut Obs,
    mk: impl Fn(u32) -> K + Copy,
    show: impl Fn(&K) -> String,
) -> Result<(), String> {
    partial(c, obs, mk)?;
    ordered(c, obs, mk)?;
    printed(c, mk, show)
}

/// The value, of a type without any comparison.
#[derive(Clone, Debug)]
struct Val(u32, String);
impl Display for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "v{}/{}", self.0, self.1)
    }
}
fn val(r: &Rec) -> Val {
    Val(r.b, format!("{}-{}", r.a, r.b))
}
fn same_val(a: &Val, b: &Val) -> bool {
    a.0 == b.0 && a.1 == b.1
}

/// Key identity beyond its own equality: how it prints.
fn text<K: Debug>(k: &K) -> String {
    format!("{k:?}")
}

fn pairs(c: &Case) -> Vec<(Rec, Rec)> {
    let mut v = vec![];
    for (i, a) in c.recs.iter().enumerate() {
        for b in &c.recs[i..] {
            v.push((*a, *b));
            v.push((*b, *a));
        }
    }
    v
}

fn partial<K: PartialOrd + Clone + Debug>(c: &Case, obs: &mut Obs, mk: impl Fn(u32) -> K) -> Result<(), String> {
    for (x, y) in pairs(c) {
        let (a, b) = (mk(x.a), mk(y.a));
        let (i, j) = (Item::new(a.clone(), val(&x)), Item::new(b.clone(), val(&y)));
        ensure!((i == j) == (a == b), "items with keys {a:?}, {b:?} compare equal: {}", i == j);
        ensure!((i != j) == (a != b), "items with keys {a:?}, {b:?} compare unequal: {}", i != j);
        let got = i.partial_cmp(&j);
        ensure!(got == a.partial_cmp(&b), "partial_cmp of items with keys {a:?}, {b:?} is {got:?}");
        ensure!(
            (i < j) == (a < b) && (i <= j) == (a <= b) && (i > j) == (a > b) && (i >= j) == (a >= b),
            "items with keys {a:?}, {b:?} are ordered differently from their keys"
        );
        obs.nontrivial |= (a == b && x.b != y.b) || a.partial_cmp(&b).is_none();
        obs.hit("pairs");
    }
    for r in &c.recs {
        let (k, v) = (mk(r.a), val(r));
        let i = Item::new(k.clone(), v.clone());
        ensure!(text(&i.key) == text(&k) && same_val(&i.value, &v), "Item::new({k:?}, {v:?}) is {i:?}");
        let (p, q) = i.as_pair();
        ensure!(std::ptr::eq(p, &i.key) && std::ptr::eq(q, &i.value), "as_pair() is not the key and the value of the item");
        let j = i.clone();
        ensure!(text(&j.key) == text(&k) && same_val(&j.value, &v), "the clone of {i:?} is {j:?}");
        ensure!(std::ptr::eq(AsRef::<Item<K, Val>>::as_ref(&i), &i), "as_ref() is another item");
        let (t, kt) = (text(&i), text(&k));
        let at = t.find(&kt).map(|at| at + kt.len()).unwrap_or(t.len());
        ensure!(t[at..].contains(&text(&v)), "the item with key {k:?} and value {v:?} is printed as {t}");
        for s in &c.recs {
            let mut j = Item::new(mk(s.a), val(s));
            j.clone_from(&i);
            ensure!(text(&j.key) == text(&k) && same_val(&j.value, &v), "{s:?} made a clone of {i:?} is {j:?}");
        }
        let (p, q) = i.into_pair();
        ensure!(text(&p) == text(&k) && same_val(&q, &v), "into_pair() of ({k:?}, {v:?}) is ({p:?}, {q:?})");
    }
    Ok(())
}

fn ordered<K: Ord + Clone + Debug>(c: &Case, obs: &mut Obs, mk: impl Fn(u32) -> K) -> Result<(), String> {
    for (x, y) in pairs(c) {
        let (a, b) = (mk(x.a), mk(y.a));
        let (i, j) = (Item::new(a.clone(), val(&x)), Item::new(b.clone(), val(&y)));
        let want = a.cmp(&b);
        ensure!(i.cmp(&j) == want, "cmp of items with keys {a:?}, {b:?} is {:?}", i.cmp(&j));
        ensure!(i.key_cmp(&b) == want, "key_cmp of the item with key {a:?} with {b:?} is {:?}", i.key_cmp(&b));
        ensure!(i.partial_cmp(&j) == Some(want), "partial_cmp of items with keys {a:?}, {b:?} is {:?}", i.partial_cmp(&j));
        // of equal ones, the same is chosen as among keys
        let pick = |k: &K| text(k);
        let (i, j) = (|| Item::new(a.clone(), val(&x)), || Item::new(b.clone(), val(&y)));
        let m = i().max(j());
        ensure!(pick(&m.key) == pick(&a.clone().max(b.clone())), "max of items with keys {a:?}, {b:?} is {m:?}");
        ensure!(m.value.0 == if want.is_gt() { x.b } else { y.b }, "max of items with keys {a:?}, {b:?} is {m:?}");
        let m = i().min(j());
        ensure!(pick(&m.key) == pick(&a.clone().min(b.clone())), "min of items with keys {a:?}, {b:?} is {m:?}");
        ensure!(m.value.0 == if want.is_gt() { y.b } else { x.b }, "min of items with keys {a:?}, {b:?} is {m:?}");
        for z in c.recs.iter().take(3) {
            let k = mk(z.a);
            let ((lo, lv), (hi, hv)) = if want.is_gt() { ((&b, y), (&a, x)) } else { ((&a, x), (&b, y)) };
            let m = Item::new(k.clone(), val(z)).clamp(Item::new(lo.clone(), val(&lv)), Item::new(hi.clone(), val(&hv)));
            let from = if k < *lo {
                (lo, lv)
            } else if k > *hi {
                (hi, hv)
            } else {
                (&k, *z)
            };
            ensure!(
                text(&m.key) == text(from.0) && same_val(&m.value, &val(&from.1)),
                "the item with key {k:?} clamped to keys {lo:?}..={hi:?} is {m:?}, should be the one with key {:?}",
                from.0
            );
        }
        obs.hit("ordered pairs");
    }
    // stable sorting by item is stable sorting by key
    let mut items: Vec<Item<K, Val>> = c.recs.iter().map(|r| Item::new(mk(r.a), val(r))).collect();
    let mut keys: Vec<(K, u32)> = c.recs.iter().map(|r| (mk(r.a), r.b)).collect();
    items.sort();
    keys.sort_by(|a, b| a.0.cmp(&b.0));
    for (i, k) in items.iter().zip(&keys) {
        ensure!(text(&i.key) == text(&k.0) && i.value.0 == k.1, "sorting items gives {i:?} where {k:?} belongs");
    }
    Ok(())
}

fn borrowed<K: Ord + Clone + Debug + Borrow<Q>, Q: Ord + ?Sized + Debug>(c: &Case, mk: impl Fn(u32) -> K) -> Result<(), String> {
    for (x, y) in pairs(c) {
        let i = Item::new(mk(x.a), val(&x));
        let k = mk(y.a);
        let q: &Q = k.borrow();
        let want = (i.key.borrow() as &Q).cmp(q);
        let got = i.key_cmp::<Q>(q);
        ensure!(got == want, "key_cmp of the item with key {:?} with borrowed {q:?} is {got:?}", i.key);
    }
    Ok(())
}

fn printed<K: Clone + Debug + Display>(c: &Case, mk: impl Fn(u32) -> K, show: impl Fn(&K) -> String) -> Result<(), String> {
    for r in &c.recs {
        let (k, v) = (mk(r.a), val(r));
        let i = Item::new(k.clone(), v.clone());
        let want = format!("({}, {v})", show(&k));
        ensure!(i.to_string() == want, "the item is displayed as {i}, should be {want}");
    }
    Ok(())
}
