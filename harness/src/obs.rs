//! What a run observed: class counters and the non-triviality verdict of the current case.

#[derive(Default)]
pub struct Obs {
    pub counts: Vec<(&'static str, u64)>,
    pub nontrivial: bool,
    /// Extra text for `exec -v` (replay narration).
    pub verbose: bool,
}

impl Obs {
    pub fn hit(&mut self, name: &'static str) {
        self.add(name, 1)
    }
    pub fn add(&mut self, name: &'static str, n: u64) {
        if n == 0 {
            return;
        }
        for c in self.counts.iter_mut() {
            if std::ptr::eq(c.0, name) || c.0 == name {
                c.1 += n;
                return;
            }
        }
        self.counts.push((name, n));
    }
    pub fn say(&self, f: impl FnOnce() -> String) {
        if self.verbose {
            println!("  {}", f());
        }
    }
}
