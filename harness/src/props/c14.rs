//! C14: the DOT text parsed back and compared with the structural walk; failing writers.
use super::*;
use crate::gen::{self, ensure, World};
use crate::ledger::It;
use crate::store::Store;
use std::collections::HashMap;
use std::io::Write;
use std::sync::OnceLock;

fn enumerated() -> &'static Vec<Case> {
    static E: OnceLock<Vec<Case>> = OnceLock::new();
    E.get_or_init(|| shapes_with(3, &mut |_, _, out| out.push(rec(gen::OWN, 0, 0))))
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "the exported tree has at least two nodes and was parsed back",
        phases: |t| {
            vec![
                ph("small shapes; random trees", Exe::Checked, enumerated().len() as u64, n(t, 80_000)),
                ph("random trees, shipped configuration", Exe::Ship, 0, n(t, 40_000)),
            ]
        },
        enumerate: |i, _, _| enumerated()[i as usize].clone(),
        gen: |r, _, _| some_tree(r, 200),
        run,
        describe: gen::describe,
    }
}

fn run(c: &Case, obs: &mut Obs) -> Result<(), String> {
    on_store!(c, obs, one)
}

/// Accepts `left` bytes, then fails (every time, or once); writes at most `chunk` bytes per call.
struct Failing {
    out: Vec<u8>,
    left: usize,
    chunk: usize,
    fired: bool,
    once: bool,
}
impl Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.left == 0 && !(self.once && self.fired) {
            self.fired = true;
            if self.once {
                self.left = usize::MAX
            }
            return Err(std::io::Error::other("disk full"));
        }
        let n = b.len().min(self.left).min(self.chunk);
        self.left -= n;
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Takes every byte, one to three at a time, with interruptions in between; flushing fails.
struct Slow(Vec<u8>, u32);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 % 5 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(1 + self.1 as usize % 3);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Err(std::io::Error::other("cannot flush"))
    }
}

fn one<S: Store<It>>(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let w = gen::build::<S>(c, obs)?;
    let mut out = vec![];
    crate::fuel::with(1_000_000, || w.tree.dot_write(&mut out)).map_err(|e| format!("dot_write fails: {e}"))?;
    let text = String::from_utf8(out.clone()).map_err(|_| "the output is not text")?;
    parse_back(&w, &text).map_err(|e| format!("{e}\n{}", crate::driver::clip(&text, 600)))?;
    obs.add("bytes parsed", text.len() as u64);
    // a slow writer gets the same; one that cannot flush gets all of it, or the error is returned
    let mut slow = Slow(vec![], text.len() as u32);
    match crate::fuel::with(1_000_000, || w.tree.dot_write(&mut slow)) {
        Ok(()) => ensure!(slow.0 == out, "dot_write reports success but a slow writer got something else"),
        Err(e) => ensure!(
            e.to_string() == "cannot flush" && slow.0 == out[..slow.0.len().min(out.len())],
            "dot_write fails with {e} on a slow writer"
        ),
    }
    // a writer that fails at byte k: the error comes back, and what was written is a prefix
    let ks: Vec<usize> = if out.len() < 200 { (0..out.len()).collect() } else { (0..24).map(|i| i * out.len() / 24).collect() };
    for (i, k) in ks.into_iter().enumerate() {
        let mut f = Failing {
            out: vec![],
            left: k,
            chunk: if k % 2 == 0 { usize::MAX } else { 3 },
            fired: false,
            once: i % 3 == 1,
        };
        let r = crate::fuel::with(1_000_000, || w.tree.dot_write(&mut f));
        ensure!(f.fired, "dot_write stops before the writer fails at byte {k} of {}", out.len());
        match r {
            Ok(()) => return Err(format!("dot_write reports success although the writer failed at byte {k}")),
            Err(e) => ensure!(e.to_string() == "disk full", "dot_write turns the writer's error into {e}"),
        }
        ensure!(out.starts_with(&f.out), "dot_write wrote something else before the error");
    }
    obs.nontrivial |= S::TRACKED && w.snap()?.nodes.len() > 1;
    Ok(())
}

struct Decl {
    parent: Option<usize>,
    items: Vec<String>,
    id: usize,
}

fn parse_back<S: Store<It>>(w: &World<S>, text: &str) -> Result<(), String> {
    let body = text.trim();
    let open = body.find('{').ok_or("no opening brace")?;
    ensure!(body[..open].trim().split_whitespace().next() == Some("digraph"), "not a digraph");
    ensure!(body.ends_with('}'), "no closing brace");
    let mut decls: HashMap<String, Decl> = HashMap::new();
    let mut edges: Vec<(String, String)> = vec![];
    for line in body[open + 1..body.len() - 1].lines() {
        let line = line.trim().trim_end_matches(';').trim();
        if line.is_empty() || line.starts_with("node ") {
            continue;
        }
        if let Some((a, b)) = line.split_once("->") {
            edges.push((a.trim().to_string(), b.trim().to_string()));
            continue;
        }
        let name: String = line.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        let label = line.split('"').nth(1).ok_or_else(|| format!("no label in: {line}"))?;
        let d = parse_label(label)?;
        ensure!(!decls.contains_key(&name), "node {name} is declared twice");
        decls.insert(name, d);
    }
    let s = w.snap()?;
    ensure!(decls.len() == s.nodes.len(), "{} nodes are declared, the tree has {}", decls.len(), s.nodes.len());
    let mut by_id: HashMap<usize, &Decl> = HashMap::new();
    for (n, d) in &decls {
        ensure!(by_id.insert(d.id, d).is_none(), "two declarations show identifier {}", d.id);
        let _ = n;
    }
    let mut name_of: HashMap<usize, String> = HashMap::new();
    for (n, d) in &decls {
        name_of.insert(d.id, n.clone());
    }
    let mut want_edges = 0;
    for n in &s.nodes {
        let id = S::num(n.id);
        let d = by_id.get(&id).ok_or_else(|| format!("node {id} is not declared"))?;
        ensure!(d.parent == n.parent.map(S::num), "node {id} shows parent {:?}, should be {:?}", d.parent, n.parent.map(S::num));
        let items: Vec<String> = n.items.iter().map(|x| format!("k{}u{}", x.0, x.1)).collect();
        ensure!(d.items == items, "node {id} shows items {:?}, should be {items:?}", d.items);
        let name = &name_of[&id];
        let out: Vec<&String> = edges.iter().filter(|e| &e.0 == name).map(|e| &e.1).collect();
        let want: Vec<&String> = n
            .children
            .iter()
            .map(|c| name_of.get(&S::num(s.nodes[*c].id)).ok_or("a child is not declared"))
            .collect::<Result<_, _>>()?;
        ensure!(out == want, "node {id} has edges to {out:?}, should have edges to {want:?}");
        want_edges += want.len();
    }
    ensure!(edges.len() == want_edges, "there are {} edges, should be {want_edges}", edges.len());
    Ok(())
}

/// Label tokens: `k..u..` are items, `c..` ports, bare numbers the parent (before the first item) and the identifier.
fn parse_label(l: &str) -> Result<Decl, String> {
    let toks: Vec<&str> = l.split(|c: char| !c.is_alphanumeric()).filter(|t| !t.is_empty()).collect();
    let mut items = vec![];
    let mut nums = vec![];
    for t in &toks {
        if t.starts_with('k') {
            items.push(t.to_string());
        } else if t.starts_with('c') && t.len() > 1 {
            continue;
        } else if let Ok(n) = t.parse::<usize>() {
            nums.push(n);
        } else {
            return Err(format!("unexpected {t:?} in label {l:?}"));
        }
    }
    match nums[..] {
        [id] => Ok(Decl { parent: None, items, id }),
        [p, id] => Ok(Decl { parent: Some(p), items, id }),
        _ => Err(format!("label {l:?} shows {} numbers, expected the parent and the identifier", nums.len())),
    }
}
