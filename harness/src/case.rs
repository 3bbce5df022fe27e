//! Cases: the unit of generation, execution, shrinking and replay.

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rec {
    pub k: u32,
    pub a: u32,
    pub b: u32,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Case {
    pub params: Vec<u32>,
    pub recs: Vec<Rec>,
}

impl Case {
    /// i-th parameter, 0 if absent (so that shrinking can cut parameters too).
    pub fn p(&self, i: usize) -> u32 {
        self.params.get(i).copied().unwrap_or(0)
    }

    pub fn to_text(&self, prop: &str, note: &str) -> String {
        let mut s = format!("property {prop}\n");
        for l in note.lines() {
            s.push_str(&format!("# {l}\n"));
        }
        s.push_str("params");
        for p in &self.params {
            s.push_str(&format!(" {p}"));
        }
        s.push('\n');
        for r in &self.recs {
            s.push_str(&format!("rec {} {} {}\n", r.k, r.a, r.b));
        }
        s
    }

    pub fn from_text(t: &str) -> Result<(String, Case), String> {
        let mut prop = String::new();
        let mut c = Case::default();
        for l in t.lines() {
            let mut w = l.split_whitespace();
            match w.next() {
                Some("property") => prop = w.next().ok_or("no property id")?.to_string(),
                Some("params") => {
                    c.params = w
                        .map(|x| x.parse().map_err(|e| format!("{e}")))
                        .collect::<Result<_, _>>()?
                }
                Some("rec") => {
                    let v: Vec<u32> = w
                        .map(|x| x.parse().map_err(|e| format!("{e}")))
                        .collect::<Result<_, String>>()?;
                    if v.len() != 3 {
                        return Err("bad rec".into());
                    }
                    c.recs.push(Rec { k: v[0], a: v[1], b: v[2] })
                }
                _ => (),
            }
        }
        Ok((prop, c))
    }

    /// Decodes arbitrary bytes (coverage-guided fuzzing): first byte = number of parameters, then 4-byte parameters,
    /// then records of 1 + 2 + 1 bytes. Total: every byte string is a case.
    pub fn from_bytes(b: &[u8], max_recs: usize) -> Case {
        let mut c = Case::default();
        let np = (*b.first().unwrap_or(&0) % 16) as usize;
        let mut i = 1;
        for _ in 0..np {
            let mut w = [0u8; 4];
            for (j, x) in w.iter_mut().enumerate() {
                *x = *b.get(i + j).unwrap_or(&0);
            }
            c.params.push(u32::from_le_bytes(w));
            i += 4;
        }
        while i + 4 <= b.len() && c.recs.len() < max_recs {
            c.recs.push(Rec {
                k: b[i] as u32,
                a: u16::from_le_bytes([b[i + 1], b[i + 2]]) as u32,
                b: b[i + 3] as u32,
            });
            i += 4;
        }
        c
    }

    pub fn hash64(&self) -> u64 {
        let mut h = Fnv::new();
        for p in &self.params {
            h.u64(*p as u64);
        }
        for r in &self.recs {
            h.u64(r.k as u64);
            h.u64(r.a as u64);
            h.u64(r.b as u64);
        }
        h.0
    }
}

#[derive(Clone, Copy)]
pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Self {
        Fnv(0xcbf29ce484222325)
    }
    pub fn u64(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 ^= self.0 >> 29;
    }
}

/// SplitMix64: every case is generated from Rng::for_case(seed, property, index) alone.
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn for_case(seed: u64, prop: &str, index: u64) -> Self {
        let mut h = Fnv::new();
        h.u64(seed);
        for b in prop.bytes() {
            h.u64(b as u64);
        }
        h.u64(index);
        Rng(h.0)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u32) -> u32 {
        (((self.next() >> 32) * n.max(1) as u64) >> 32) as u32
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) < num
    }
    pub fn u32(&mut self) -> u32 {
        (self.next() >> 32) as u32
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u32) as usize]
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> u32 {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total);
        for (i, w) in w.iter().enumerate() {
            if x < *w {
                return i as u32;
            }
            x -= *w;
        }
        0
    }
}

/// Delta debugging over a case. `fails` re-executes a candidate and tells whether it still fails.
/// `budget` bounds the number of executions.
pub fn shrink(mut c: Case, budget: &mut u32, mut fails: impl FnMut(&Case) -> bool) -> Case {
    let mut test = |c: &Case, budget: &mut u32| -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        fails(c)
    };
    loop {
        let start = c.clone();
        // remove chunks of records
        let mut chunk = c.recs.len().max(1);
        while chunk >= 1 && !c.recs.is_empty() {
            let mut i = 0;
            while i < c.recs.len() {
                let mut cand = c.clone();
                let end = (i + chunk).min(cand.recs.len());
                cand.recs.drain(i..end);
                if test(&cand, budget) {
                    c = cand;
                } else {
                    i += chunk;
                }
                if *budget == 0 {
                    return c;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // lower parameters
        for i in 0..c.params.len() {
            for v in lower(c.params[i]) {
                let mut cand = c.clone();
                cand.params[i] = v;
                if test(&cand, budget) {
                    c = cand;
                    break;
                }
            }
        }
        // lower record fields
        for i in 0..c.recs.len() {
            for f in 0..3 {
                let cur = [c.recs[i].k, c.recs[i].a, c.recs[i].b][f];
                for v in lower(cur) {
                    let mut cand = c.clone();
                    match f {
                        0 => cand.recs[i].k = v,
                        1 => cand.recs[i].a = v,
                        _ => cand.recs[i].b = v,
                    }
                    if test(&cand, budget) {
                        c = cand;
                        break;
                    }
                }
                if *budget == 0 {
                    return c;
                }
            }
        }
        if c == start || *budget == 0 {
            return c;
        }
    }
}

fn lower(v: u32) -> Vec<u32> {
    let mut out = vec![];
    if v > 0 {
        out.push(0);
        if v > 2 {
            out.push(v / 2);
        }
        if v > 1 {
            out.push(v - 1);
        }
    }
    out
}
