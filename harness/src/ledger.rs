//! Drop-tracked items, the ownership ledger, fault injection, and the counting allocator.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::mem::ManuallyDrop;

// ---------------------------------------------------------------- allocator

pub struct CountingAlloc;

thread_local! {
    static LIVE_BLOCKS: Cell<isize> = const { Cell::new(0) };
    static LIVE_BYTES: Cell<isize> = const { Cell::new(0) };
}

/// More than this on one thread means runaway allocation: an error exit (77), not a verdict.
const BYTES_LIMIT: isize = 3 << 30;

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            count(1, l.size() as isize);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        count(-1, -(l.size() as isize));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            count(0, new as isize - l.size() as isize);
        }
        q
    }
}

fn count(blocks: isize, bytes: isize) {
    let _ = LIVE_BLOCKS.try_with(|c| c.set(c.get() + blocks));
    let _ = LIVE_BYTES.try_with(|c| {
        c.set(c.get() + bytes);
        if c.get() > BYTES_LIMIT {
            std::process::exit(77);
        }
    });
}

pub fn live_blocks() -> isize {
    LIVE_BLOCKS.with(|c| c.get())
}
pub fn live_bytes() -> isize {
    LIVE_BYTES.with(|c| c.get())
}

// ---------------------------------------------------------------- ledger

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Live,
    Dropped,
}

#[derive(Default)]
struct Ledger {
    state: Vec<St>,
    violation: Option<String>,
    /// Panic at the moment this counter reaches zero.
    clone_fuse: Option<u64>,
    drop_fuse: Option<u64>,
    clones: u64,
    drops: u64,
}

thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}

pub const INJECTED: &str = "injected panic";

pub fn reset() {
    LEDGER.with(|l| *l.borrow_mut() = Ledger::default());
}
pub fn violation(s: String) {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        if l.violation.is_none() {
            l.violation = Some(s)
        }
    })
}
pub fn check() -> Result<(), String> {
    LEDGER.with(|l| match l.borrow().violation.clone() {
        Some(v) => Err(v),
        None => Ok(()),
    })
}
pub fn count_live() -> usize {
    LEDGER.with(|l| l.borrow().state.iter().filter(|s| **s == St::Live).count())
}
pub fn is_live(uid: u64) -> bool {
    LEDGER.with(|l| l.borrow().state.get(uid as usize) == Some(&St::Live))
}
pub fn created() -> u64 {
    LEDGER.with(|l| l.borrow().state.len() as u64)
}
pub fn clones() -> u64 {
    LEDGER.with(|l| l.borrow().clones)
}
pub fn drops() -> u64 {
    LEDGER.with(|l| l.borrow().drops)
}
pub fn set_clone_fuse(v: Option<u64>) {
    LEDGER.with(|l| l.borrow_mut().clone_fuse = v)
}
pub fn set_drop_fuse(v: Option<u64>) {
    LEDGER.with(|l| l.borrow_mut().drop_fuse = v)
}
pub fn clone_fuse_left() -> Option<u64> {
    LEDGER.with(|l| l.borrow().clone_fuse)
}
pub fn drop_fuse_left() -> Option<u64> {
    LEDGER.with(|l| l.borrow().drop_fuse)
}
fn new_uid() -> u64 {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.state.push(St::Live);
        l.state.len() as u64 - 1
    })
}

const MAGIC: u64 = 0x5EED_1DEA_C0FF_EE11;

/// The tracked item: `key` is what comparators look at, `uid` identifies the very item.
pub struct It {
    pub key: u64,
    pub uid: u64,
    /// Mutable payload, written through the various mutable accessors.
    pub val: u64,
    magic: u64,
    heap: ManuallyDrop<Option<Box<u64>>>,
}

impl It {
    pub fn new(key: u64, heap: bool) -> Self {
        let uid = new_uid();
        It {
            key,
            uid,
            val: 0,
            magic: uid ^ MAGIC,
            heap: ManuallyDrop::new(heap.then(|| Box::new(uid))),
        }
    }
    /// Is this a bit pattern of a real, live item?
    pub fn intact(&self) -> bool {
        self.magic == self.uid ^ MAGIC && is_live(self.uid) && self.heap.as_ref().map(|b| **b == self.uid) != Some(false)
    }
    /// For use inside comparators and accessors: records a violation if the item is not intact.
    pub fn touch(&self) {
        if !self.intact() {
            if self.magic == self.uid ^ MAGIC {
                violation(format!("LEDGER: item {} (key {}) used after it was dropped", self.uid, self.key));
            } else {
                violation("LEDGER: memory that is not an item was used as an item".into());
            }
        }
    }
}

impl Clone for It {
    fn clone(&self) -> Self {
        self.touch();
        let fire = LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.clones += 1;
            burn(&mut l.clone_fuse)
        });
        if fire {
            panic!("{INJECTED}");
        }
        let uid = new_uid();
        It {
            key: self.key,
            uid,
            val: self.val,
            magic: uid ^ MAGIC,
            heap: ManuallyDrop::new(self.heap.is_some().then(|| Box::new(uid))),
        }
    }
}

fn burn(f: &mut Option<u64>) -> bool {
    match f {
        Some(0) => {
            *f = None;
            true
        }
        Some(n) => {
            *n -= 1;
            false
        }
        None => false,
    }
}

impl Drop for It {
    fn drop(&mut self) {
        if self.magic != self.uid ^ MAGIC {
            violation("LEDGER: memory that is not an item was dropped as an item".into());
            return;
        }
        let uid = self.uid as usize;
        let (ok, fire) = LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.drops += 1;
            match l.state.get(uid).copied() {
                Some(St::Live) => {
                    l.state[uid] = St::Dropped;
                    let f = burn(&mut l.drop_fuse);
                    (true, f)
                }
                Some(St::Dropped) => {
                    let m = format!("LEDGER: item {} (key {}) dropped twice", self.uid, self.key);
                    l.violation.get_or_insert(m);
                    (false, false)
                }
                None => {
                    l.violation.get_or_insert("LEDGER: an unknown item was dropped".into());
                    (false, false)
                }
            }
        });
        if ok {
            unsafe { ManuallyDrop::drop(&mut self.heap) }
            if fire && !std::thread::panicking() {
                panic!("{INJECTED}");
            }
        }
    }
}

impl std::fmt::Display for It {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k{}u{}", self.key, self.uid)
    }
}
impl std::fmt::Debug for It {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}#{}", self.key, self.uid)
    }
}

/// What the structural walk needs to know about an item.
pub trait Peek {
    fn key(&self) -> u64;
    fn uid(&self) -> u64;
    fn ok(&self) -> Result<(), String> {
        Ok(())
    }
}
impl Peek for It {
    fn key(&self) -> u64 {
        self.key
    }
    fn uid(&self) -> u64 {
        self.uid
    }
    fn ok(&self) -> Result<(), String> {
        if self.intact() {
            Ok(())
        } else {
            Err("LEDGER: the tree holds something that is not a live item".into())
        }
    }
}
