//! A family of node storages, all conforming to the Storage contract, instrumented to detect any use that does not.

use crate::{fuel, ledger};
use raw_btree::storage::{BoxPtr, BoxStorage, Dropper};
use raw_btree::{Node, Storage};
use std::cell::{Cell, UnsafeCell};
use std::collections::VecDeque;
use std::rc::Rc;

/// Storage with an identifier that can be mapped to an integer, as needed by the structural walk.
pub trait Store<T>: Storage<T, Node: Copy + PartialEq + std::fmt::Debug + Into<usize>> {
    const NAME: &'static str;
    const TRACKED: bool;
    fn num(id: Self::Node) -> usize;
}

impl<T> Store<T> for BoxStorage {
    const NAME: &'static str = "boxed";
    const TRACKED: bool = false;
    fn num(id: BoxPtr<T>) -> usize {
        id.into()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct SId {
    store: u32,
    idx: u32,
}
impl SId {
    /// An identifier bound to nothing, for nodes handled outside any storage.
    pub fn fake(idx: u32) -> Self {
        SId { store: 0, idx }
    }
}
impl From<SId> for usize {
    fn from(s: SId) -> usize {
        s.idx as usize
    }
}

/// Identifiers never reused.
pub const FRESH: u8 = 0;
/// Last released identifier reused first.
pub const LIFO: u8 = 1;
/// First released identifier reused first; no dropper: the storage drops its nodes itself.
pub const SELF: u8 = 2;
/// Nodes stored by value in a growing vector (they move when it grows), LIFO reuse, no dropper.
pub const MOVING: u8 = 3;

pub struct Slab<T, const MODE: u8> {
    inner: Rc<UnsafeCell<Inner<T, MODE>>>,
}
enum Slot<N> {
    Free,
    Boxed(Box<N>),
    Plain(N),
}
struct Inner<T, const MODE: u8> {
    serial: u32,
    slots: Vec<Slot<Node<T, Slab<T, MODE>>>>,
    free: VecDeque<u32>,
    active: usize,
}

thread_local! {
    static SERIAL: Cell<u32> = const { Cell::new(0) };
    static STRICT: Cell<bool> = const { Cell::new(true) };
}
pub fn reset() {
    SERIAL.with(|s| s.set(0));
    STRICT.with(|s| s.set(true));
}
/// With `false`, nodes left in a storage that is being dropped are not reported (after an injected panic,
/// leaking is allowed).
pub fn strict_leaks(b: bool) {
    STRICT.with(|s| s.set(b));
}

impl<T, const MODE: u8> Default for Slab<T, MODE> {
    fn default() -> Self {
        let serial = SERIAL.with(|s| {
            s.set(s.get() + 1);
            s.get()
        });
        Slab {
            inner: Rc::new(UnsafeCell::new(Inner {
                serial,
                slots: Vec::new(),
                free: VecDeque::new(),
                active: 0,
            })),
        }
    }
}

impl<T, const MODE: u8> Inner<T, MODE> {
    fn ok(&self, id: SId, what: &str) -> Option<usize> {
        if id.store != self.serial {
            ledger::violation(format!("CONTRACT: {what} of {id:?}, which belongs to another storage"));
            return None;
        }
        match self.slots.get(id.idx as usize) {
            Some(Slot::Boxed(_)) | Some(Slot::Plain(_)) => Some(id.idx as usize),
            _ => {
                ledger::violation(format!("CONTRACT: {what} of {id:?}, which is not an active identifier"));
                None
            }
        }
    }
    fn take(&mut self, i: usize) -> Slot<Node<T, Slab<T, MODE>>> {
        self.active -= 1;
        if MODE != FRESH {
            self.free.push_back(i as u32);
        }
        std::mem::replace(&mut self.slots[i], Slot::Free)
    }
}

fn bad() -> ! {
    // Unwinding out of a destructor that runs during unwinding aborts; that is fine: the violation is final.
    panic!("CONTRACT: storage used with an inactive identifier")
}

unsafe impl<T, const MODE: u8> Storage<T> for Slab<T, MODE> {
    type Node = SId;
    type Dropper = SlabDropper<T, MODE>;

    fn allocate_node(&mut self, node: Node<T, Self>) -> SId {
        fuel::alloc();
        let inner = unsafe { &mut *self.inner.get() };
        let slot = if MODE == MOVING { Slot::Plain(node) } else { Slot::Boxed(Box::new(node)) };
        inner.active += 1;
        let reuse = if MODE == SELF { inner.free.pop_front() } else { inner.free.pop_back() };
        let idx = match reuse {
            Some(i) => {
                inner.slots[i as usize] = slot;
                i
            }
            None => {
                if MODE == MOVING && inner.slots.len() == inner.slots.capacity() {
                    // really move the nodes
                    let mut v = Vec::with_capacity(inner.slots.len() + 1);
                    v.append(&mut inner.slots);
                    inner.slots = v;
                }
                inner.slots.push(slot);
                inner.slots.len() as u32 - 1
            }
        };
        SId { store: inner.serial, idx }
    }

    unsafe fn release_node(&mut self, id: SId) -> Node<T, Self> {
        fuel::release();
        let inner = &mut *self.inner.get();
        match inner.ok(id, "release") {
            Some(i) => match inner.take(i) {
                Slot::Boxed(b) => *b,
                Slot::Plain(n) => n,
                Slot::Free => bad(),
            },
            None => bad(),
        }
    }

    fn start_dropping(&self) -> Option<Self::Dropper> {
        if MODE == SELF || MODE == MOVING {
            None
        } else {
            Some(SlabDropper { inner: self.inner.clone() })
        }
    }

    unsafe fn get(&self, id: SId) -> &Node<T, Self> {
        fuel::get();
        let inner = &*self.inner.get();
        match inner.ok(id, "access") {
            Some(i) => match &inner.slots[i] {
                Slot::Boxed(b) => b,
                Slot::Plain(n) => n,
                Slot::Free => bad(),
            },
            None => bad(),
        }
    }

    unsafe fn get_mut(&mut self, id: SId) -> &mut Node<T, Self> {
        fuel::get();
        let inner = &mut *self.inner.get();
        match inner.ok(id, "mutable access") {
            Some(i) => match &mut inner.slots[i] {
                Slot::Boxed(b) => b,
                Slot::Plain(n) => n,
                Slot::Free => bad(),
            },
            None => bad(),
        }
    }
}

impl<T, const MODE: u8> Drop for Slab<T, MODE> {
    fn drop(&mut self) {
        let n = unsafe { (*self.inner.get()).active };
        if MODE == SELF || MODE == MOVING {
            // the nodes it still holds go with it
            (0..n).for_each(|_| fuel::release());
        }
        if (MODE == FRESH || MODE == LIFO) && n > 0 && STRICT.with(|s| s.get()) && !std::thread::panicking() {
            ledger::violation(format!(
                "CONTRACT: storage dropped while {n} nodes were neither released nor passed to the dropper"
            ));
        }
    }
}

pub struct SlabDropper<T, const MODE: u8> {
    inner: Rc<UnsafeCell<Inner<T, MODE>>>,
}
unsafe impl<T, const MODE: u8> Dropper<T, Slab<T, MODE>> for SlabDropper<T, MODE> {
    unsafe fn drop_node(&mut self, id: SId) {
        fuel::release();
        let n = {
            let inner = &mut *self.inner.get();
            match inner.ok(id, "dropping") {
                Some(i) => inner.take(i),
                None => bad(),
            }
        };
        drop(n);
    }
}

impl<T, const MODE: u8> Slab<T, MODE> {
    pub fn active(&self) -> usize {
        unsafe { (*self.inner.get()).active }
    }
}

impl<T, const MODE: u8> Store<T> for Slab<T, MODE> {
    const NAME: &'static str = match MODE {
        FRESH => "slab-fresh",
        LIFO => "slab-lifo",
        SELF => "slab-self",
        _ => "slab-moving",
    };
    const TRACKED: bool = true;
    fn num(id: SId) -> usize {
        id.idx as usize
    }
}

/// Total nodes active in the newest storage cannot be seen through RawBTree, so reachability is checked by comparing
/// allocations minus releases (fuel counters) with the walk.
#[macro_export]
macro_rules! with_store {
    ($sel:expr, $t:ty, $f:ident ( $($a:expr),* )) => {
        match $sel % 5 {
            0 => $f::<raw_btree::storage::BoxStorage>($($a),*),
            1 => $f::<$crate::store::Slab<$t, { $crate::store::FRESH }>>($($a),*),
            2 => $f::<$crate::store::Slab<$t, { $crate::store::LIFO }>>($($a),*),
            3 => $f::<$crate::store::Slab<$t, { $crate::store::SELF }>>($($a),*),
            _ => $f::<$crate::store::Slab<$t, { $crate::store::MOVING }>>($($a),*),
        }
    };
}
