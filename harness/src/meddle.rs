//! Other collections used in the middle of a call.
//!
//! User code that a collection calls (comparisons, clones, aggregates, searches, destructors) may
//! itself use other collections of the same thread, e.g. a cache of collation keys. While this is
//! switched on, such code works on a side collection which is compared with a reference as well;
//! neither collection may notice the other.
use crate::core::{foreign, violation, Rng};
use std::cell::{Cell, RefCell};
use sweep_bptree::augment::count::Count;
use sweep_bptree::tree::Cursor;
use sweep_bptree::{BPlusTree, NodeStoreVec};

struct Side {
    rng: Rng,
    own: bool,
    n: usize,
    grow: bool,
    t: BPlusTree<NodeStoreVec<u64, u64, Count>>,
    m: Vec<(u64, u64)>,
    c: Option<Cursor<u64>>,
    calls: u64,
    every: u64,
    acts: u64,
}
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static SIDE: RefCell<Option<Box<Side>>> = const { RefCell::new(None) };
}

/// user code runs in the middle of a call
#[inline]
pub fn meddle() {
    if ON.try_with(|o| o.get()).unwrap_or(false) {
        slow()
    }
}
#[cold]
fn slow() {
    ON.with(|o| o.set(false));
    let mut s = SIDE.with(|s| s.borrow_mut().take()).expect("side collection");
    s.calls += 1;
    if s.calls % s.every == 0 {
        s.act();
        // long episodes call user code millions of times
        if s.acts % 8192 == 0 {
            s.every *= 2;
        }
    }
    SIDE.with(|x| *x.borrow_mut() = Some(s));
    ON.with(|o| o.set(true));
}

/// `own`: a wrong answer of the side collection refutes the monitored property
pub fn start(seed: u64, n: usize, own: bool, every: u64) {
    let mut rng = Rng::new(seed ^ 0x5eed);
    let mut s = Box::new(Side {
        t: BPlusTree::new(NodeStoreVec::new()),
        m: Vec::new(),
        c: None,
        calls: 0,
        every,
        acts: 0,
        grow: true,
        own,
        n,
        rng: Rng::new(rng.next()),
    });
    for _ in 0..4 * n {
        s.act();
    }
    s.acts = 0;
    SIDE.with(|x| *x.borrow_mut() = Some(s));
    ON.with(|o| o.set(true));
}

/// how often the side collection was used
pub fn stop() -> Option<u64> {
    ON.with(|o| o.set(false));
    let mut s = SIDE.with(|s| s.borrow_mut().take())?;
    s.whole();
    Some(s.acts)
}


impl Side {
    fn wrong(&self, m: String) -> ! {
        let m = format!("a collection used by user code inside a call on another one: {m}");
        if self.own {
            violation(m)
        }
        foreign(m)
    }
    fn act(&mut self) {
        self.acts += 1;
        let span = 40 * self.n as u64;
        let k = self.rng.below(span);
        let at = self.m.binary_search_by_key(&k, |x| x.0);
        if self.m.len() > 7 * self.n {
            self.grow = false;
        } else if self.m.len() < self.n {
            self.grow = true;
        }
        match self.rng.below(12) {
            0..=5 => {
                let ins = self.rng.chance(if self.grow { 4 } else { 1 }, 5);
                if ins {
                    let v = self.acts;
                    let got = self.t.insert(k, v);
                    let want = match at {
                        Ok(i) => Some(std::mem::replace(&mut self.m[i].1, v)),
                        Err(i) => {
                            self.m.insert(i, (k, v));
                            None
                        }
                    };
                    if got != want {
                        self.wrong(format!("insert of {k} returned {got:?}, expected {want:?}"));
                    }
                } else if !self.m.is_empty() {
                    // something present, near k
                    let i = at.unwrap_or_else(|i| i).min(self.m.len() - 1);
                    let (k, v) = self.m.remove(i);
                    let got = if self.rng.chance(1, 3) {
                        self.t.remove_by_augmentation(i).filter(|x| x.0 == k).map(|x| x.1)
                    } else {
                        self.t.remove(&k)
                    };
                    if got != Some(v) {
                        self.wrong(format!("removal of {k} returned {got:?}, expected {v}"));
                    }
                }
            }
            6 | 7 => {
                let want = at.ok().map(|i| self.m[i].1);
                let got = self.t.get(&k).copied();
                if got != want {
                    self.wrong(format!("get of {k} returned {got:?}, expected {want:?}"));
                }
            }
            8 => {
                let i = self.rng.idx(self.m.len() + 2);
                let got = self.t.get_by_augmentation(i).map(|x| (*x.0, *x.1));
                if got != self.m.get(i).copied() {
                    self.wrong(format!("position {i} holds {got:?}, expected {:?}", self.m.get(i)));
                }
            }
            9 => {
                let got = self.t.rank_by_augmentation(&k);
                if got != at {
                    self.wrong(format!("rank of {k} is {got:?}, expected {at:?}"));
                }
            }
            10 => {
                if let Some(c) = self.c.take() {
                    let k = *c.key();
                    let i = self.m.partition_point(|x| x.0 <= k);
                    let got = c.next_with_value(&self.t).map(|(c, v)| (*c.key(), *v));
                    if got != self.m.get(i).copied() {
                        self.wrong(format!("the entry after {k} is {got:?}, expected {:?}", self.m.get(i)));
                    }
                    self.c = c.next(&self.t);
                } else {
                    self.c = self.t.get_cursor(&k).map(|x| x.0);
                }
            }
            _ => {
                let got = (self.t.first().map(|x| *x.0), self.t.last().map(|x| *x.0), self.t.len());
                let want = (self.m.first().map(|x| x.0), self.m.last().map(|x| x.0), self.m.len());
                if got != want {
                    self.wrong(format!("first, last and len are {got:?}, expected {want:?}"));
                }
                let got: Vec<u64> = self.t.iter().rev().take(3).map(|x| *x.0).collect();
                if !got.iter().eq(self.m.iter().rev().take(3).map(|x| &x.0)) {
                    self.wrong(format!("the last entries are {got:?}"));
                }
            }
        }
    }
    fn whole(&mut self) {
        if !self.t.iter().map(|x| (*x.0, *x.1)).eq(self.m.iter().copied()) {
            self.wrong(format!("its {} entries are not what was inserted", self.m.len()));
        }
    }
}
