//! Drives an iterator through the methods Iterator, DoubleEndedIterator and ExactSizeIterator provide (any of which an
//! iterator type may specialise). The oracle is differential: the same call on a vector's iterator gives the same trace.

pub const PART_FWD: u32 = 10;
pub const PART: u32 = PART_FWD + 6;
pub const REST_FWD: u32 = 17;
pub const REST: u32 = REST_FWD + 10;

/// Advances the iterator by one call that only moves it forward; the identities of what it yields, or what it tells.
pub fn part_fwd<X, I: Iterator<Item = X>>(it: &mut I, how: u32, n: usize, id: impl Fn(&X) -> u64) -> Vec<u64> {
    let mut t = vec![];
    let mut c = 0;
    let mut stop = |x: &X| {
        t.push(id(x));
        c += 1;
        c > n
    };
    let r = match how % PART_FWD {
        0 => it.nth(n).map(|x| id(&x)),
        1 => it.find(|x| stop(x)).map(|x| id(&x)),
        2 => it.position(|x| stop(&x)).map(|p| p as u64),
        3 => Some(it.any(|x| stop(&x)) as u64),
        4 => Some(it.all(|x| !stop(&x)) as u64),
        5 => it.find_map(|x| if stop(&x) { Some(id(&x)) } else { None }),
        6 => Some(it.by_ref().take(n).map(|x| stop(&x)).count() as u64),
        7 => it.try_fold(0u64, |a, x| if stop(&x) { Err(a) } else { Ok(a + 1) }).ok(),
        8 => it.by_ref().take_while(|x| !stop(x)).last().map(|x| id(&x)),
        _ => it.by_ref().skip(n).next().map(|x| id(&x)),
    };
    t.push(u64::MAX);
    t.push(r.map_or(u64::MAX, |x| x));
    t
}
pub fn part<X, I: DoubleEndedIterator<Item = X> + ExactSizeIterator>(
    it: &mut I,
    how: u32,
    n: usize,
    id: impl Fn(&X) -> u64,
) -> Vec<u64> {
    let how = how % PART;
    if how < PART_FWD {
        return part_fwd(it, how, n, id);
    }
    let mut t = vec![];
    let mut c = 0;
    let mut stop = |x: &X| {
        t.push(id(x));
        c += 1;
        c > n
    };
    let r = match how - PART_FWD {
        0 => it.nth_back(n).map(|x| id(&x)),
        1 => it.rfind(|x| stop(x)).map(|x| id(&x)),
        2 => it.rposition(|x| stop(&x)).map(|p| p as u64),
        3 => it.try_rfold(0u64, |a, x| if stop(&x) { Err(a) } else { Ok(a + 1) }).ok(),
        4 => Some(it.by_ref().rev().take(n).map(|x| stop(&x)).count() as u64),
        _ => it.by_ref().rev().skip(n).next().map(|x| id(&x)),
    };
    t.push(u64::MAX);
    t.push(r.map_or(u64::MAX, |x| x));
    t
}

/// Uses the iterator up.
pub fn rest_fwd<X, I: Iterator<Item = X>>(mut it: I, how: u32, n: usize, id: impl Fn(&X) -> u64) -> Vec<u64> {
    let mut t = vec![];
    match how % REST_FWD {
        0 => t.extend(it.last().map(|x| id(&x))),
        1 => t.push(it.count() as u64),
        2 => {
            t = it.fold(t, |mut t, x| {
                t.push(id(&x));
                t
            })
        }
        3 => it.for_each(|x| t.push(id(&x))),
        4 => t.extend(it.collect::<Vec<X>>().iter().map(|x| id(x))),
        5 => t.extend(it.skip(n).map(|x| id(&x))),
        6 => t.extend(it.step_by(n + 1).map(|x| id(&x))),
        7 => t.extend(it.max_by_key(|x| id(x)).map(|x| id(&x))),
        8 => t.extend(it.min_by_key(|x| id(x)).map(|x| id(&x))),
        9 => t.extend(it.reduce(|a, b| if id(&a) % 7 > id(&b) % 7 { a } else { b }).map(|x| id(&x))),
        10 => {
            let (a, b): (Vec<X>, Vec<X>) = it.partition(|x| id(x) % 2 == 0);
            t.extend(a.iter().chain(b.iter()).map(|x| id(x)))
        }
        11 => t.extend(it.enumerate().last().map(|(i, x)| id(&x) + 1000 * i as u64)),
        12 => {
            for x in it {
                t.push(id(&x))
            }
        }
        13 => {
            let mut p = it.peekable();
            while p.peek().is_some() {
                t.extend(p.next().map(|x| id(&x)))
            }
        }
        14 => t.extend(it.zip(0..n).last().map(|(x, i)| id(&x) + 1000 * i as u64)),
        15 => t.push(it.map(|x| id(&x)).is_sorted() as u64),
        _ => {
            let (lo, hi) = it.size_hint();
            t.push((lo <= hi.unwrap_or(lo)) as u64);
            t.extend(it.nth(n).map(|x| id(&x)));
            t.push(it.map(|x| id(&x)).sum())
        }
    }
    t
}
pub fn rest<X, I: DoubleEndedIterator<Item = X> + ExactSizeIterator>(it: I, how: u32, n: usize, id: impl Fn(&X) -> u64) -> Vec<u64> {
    let how = how % REST;
    if how < REST_FWD {
        return rest_fwd(it, how, n, id);
    }
    let mut t = vec![];
    match how - REST_FWD {
        0 => {
            t = it.rfold(t, |mut t, x| {
                t.push(id(&x));
                t
            })
        }
        1 => t.extend(it.rev().map(|x| id(&x))),
        2 => t.extend(it.rev().last().map(|x| id(&x))),
        3 => t.extend(it.rev().nth(n).map(|x| id(&x))),
        4 => t.push(it.rev().skip(n).count() as u64),
        5 => t.extend(it.rev().step_by(n + 1).map(|x| id(&x))),
        6 => t.extend(it.take(n).rev().map(|x| id(&x))),
        7 => t.extend(it.skip(n).rev().map(|x| id(&x))),
        8 => t.extend(it.enumerate().rev().map(|(i, x)| id(&x) + 1000 * i as u64)),
        _ => t.extend(it.step_by(n + 1).rev().map(|x| id(&x))),
    }
    t
}
