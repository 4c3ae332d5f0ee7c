//! Instrumented key, value and aggregate types.
use crate::meddle::meddle;
use crate::core::{violation, Injected};
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt::Debug;
use sweep_bptree::augment::{Augmentation, SearchAugmentation};
use sweep_bptree::Key;

// ---------------------------------------------------------------- ledger of identities
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    Key = 0,
    Val = 1,
    Agg = 2,
}
#[derive(Default)]
pub struct Ledger {
    /// 1 live, 2 dropped
    state: Vec<u8>,
    live: [i64; 3],
    created: [u64; 3],
}
thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
    static FAULT: Cell<i64> = const { Cell::new(-1) };
    pub static CMP: Cell<u64> = const { Cell::new(0) };
    pub static CLONES: Cell<u64> = const { Cell::new(0) };
    pub static AGG_EVAL: Cell<u64> = const { Cell::new(0) };
    pub static AGG_ITEMS: Cell<u64> = const { Cell::new(0) };
    /// calls of the user's locate functions
    pub static LOCATES: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    /// which user calls are faulted: comparisons 1, key clones 2, aggregates 4, destructors 8,
    /// value clones 16
    static FAULT_KINDS: Cell<u8> = const { Cell::new(3) };
    /// kinds of the user calls that panicked so far
    pub static FAULTED: Cell<u8> = const { Cell::new(0) };
}
const CANARY: u64 = 0xC0FF_EE00_D15E_A5E5;

fn born(c: Class) -> u32 {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.state.push(1);
        l.live[c as usize] += 1;
        l.created[c as usize] += 1;
        (l.state.len() - 1) as u32
    })
}
fn state_of(id: u32) -> u8 {
    LEDGER.with(|l| l.borrow().state.get(id as usize).copied().unwrap_or(0))
}
fn alive(id: u32, c: Class, what: &str) {
    match state_of(id) {
        1 => {}
        2 => violation(format!("{what} of a {c:?} that was already dropped (identity {id})")),
        _ => violation(format!("{what} of memory that never held a {c:?} (identity {id})")),
    }
}
fn died(id: u32, c: Class) {
    let s = LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        let s = l.state.get(id as usize).copied().unwrap_or(0);
        if s == 1 {
            l.state[id as usize] = 2;
            l.live[c as usize] -= 1;
        }
        s
    });
    match s {
        1 => {}
        2 => violation(format!("a {c:?} was dropped twice (identity {id})")),
        _ => violation(format!("drop of memory that never held a {c:?} (identity {id})")),
    }
}
/// births and deaths of things without room for an identity
fn count_in(c: Class) {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.live[c as usize] += 1;
        l.created[c as usize] += 1;
    })
}
fn count_out(c: Class) {
    let n = LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.live[c as usize] -= 1;
        l.live[c as usize]
    });
    if n < 0 {
        violation(format!("more {c:?}s were dropped than created"));
    }
}
pub fn live(c: Class) -> i64 {
    LEDGER.with(|l| l.borrow().live[c as usize])
}
pub fn created(c: Class) -> u64 {
    LEDGER.with(|l| l.borrow().created[c as usize])
}
/// forget everything; only between episodes
pub fn ledger_reset() {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.state = Vec::new();
        l.live = [0; 3];
        l.created = [0; 3];
    });
}
pub fn ledger_trim() {
    LEDGER.with(|l| l.borrow_mut().state.shrink_to_fit());
}
/// keep ledger allocations out of measured intervals
pub fn ledger_reserve(n: usize) {
    LEDGER.with(|l| l.borrow_mut().state.reserve(n));
}

// ---------------------------------------------------------------- fault injection
pub fn arm(n: i64, kinds: u8) {
    FAULT.with(|f| f.set(n));
    FAULT_KINDS.with(|k| k.set(kinds));
    CALLS.with(|c| c.set(0));
}
pub fn disarm() -> u64 {
    FAULT.with(|f| f.set(-1));
    CALLS.with(|c| c.get())
}
#[inline]
fn user_call(kind: u8) {
    meddle();
    FAULT.with(|f| {
        let n = f.get();
        if n >= 0 && FAULT_KINDS.with(|k| k.get()) & kind != 0 {
            CALLS.with(|c| c.set(c.get() + 1));
            if n == 0 {
                f.set(-1);
                FAULTED.with(|x| x.set(x.get() | kind));
                std::panic::panic_any(Injected);
            }
            f.set(n - 1);
        }
    });
}

#[inline]
fn user_drop() {
    if !std::thread::panicking() {
        user_call(8);
    }
}

pub fn reset_work() {
    CMP.with(|c| c.set(0));
    CLONES.with(|c| c.set(0));
    AGG_EVAL.with(|c| c.set(0));
    AGG_ITEMS.with(|c| c.set(0));
    LOCATES.with(|c| c.set(0));
}
pub fn work() -> (u64, u64, u64, u64) {
    (
        CMP.with(|c| c.get()),
        CLONES.with(|c| c.get()),
        AGG_EVAL.with(|c| c.get()),
        AGG_ITEMS.with(|c| c.get()),
    )
}

// ---------------------------------------------------------------- key trait
pub trait KeyT: Key + Debug + Borrow<Self::Q> + 'static {
    type Q: ?Sized + Ord;
    const NAME: &'static str;
    const MAXO: u64 = 1 << 40;
    fn mk(o: u64) -> Self;
    /// inverse of mk
    fn o(&self) -> u64;
    fn with_q<R>(o: u64, f: impl FnOnce(&Self::Q) -> R) -> R;
    fn mk_tag(o: u64, _tag: u32) -> Self {
        Self::mk(o)
    }
    fn tag(&self) -> Option<u32> {
        None
    }
    fn verify(&self) {}
}
impl KeyT for u64 {
    type Q = u64;
    const NAME: &'static str = "u64";
    fn mk(o: u64) -> Self {
        o
    }
    fn o(&self) -> u64 {
        *self
    }
    fn with_q<R>(o: u64, f: impl FnOnce(&u64) -> R) -> R {
        f(&o)
    }
}
impl KeyT for i32 {
    type Q = i32;
    const NAME: &'static str = "i32";
    const MAXO: u64 = 1 << 31;
    fn mk(o: u64) -> Self {
        o as i32 - 5000
    }
    fn o(&self) -> u64 {
        (*self + 5000) as u64
    }
    fn with_q<R>(o: u64, f: impl FnOnce(&i32) -> R) -> R {
        f(&<Self as KeyT>::mk(o))
    }
}
impl KeyT for u8 {
    type Q = u8;
    const NAME: &'static str = "u8";
    const MAXO: u64 = 256;
    fn mk(o: u64) -> Self {
        o as u8
    }
    fn o(&self) -> u64 {
        *self as u64
    }
    fn with_q<R>(o: u64, f: impl FnOnce(&u8) -> R) -> R {
        f(&(o as u8))
    }
}
impl KeyT for () {
    type Q = ();
    const NAME: &'static str = "()";
    const MAXO: u64 = 1;
    fn mk(_: u64) -> Self {}
    fn o(&self) -> u64 {
        0
    }
    fn with_q<R>(_: u64, f: impl FnOnce(&()) -> R) -> R {
        f(&())
    }
}
impl KeyT for String {
    type Q = str;
    const NAME: &'static str = "String";
    fn mk(o: u64) -> Self {
        format!("key-{o:013}")
    }
    fn o(&self) -> u64 {
        match self.as_str().get(4..).and_then(|s| s.parse().ok()) {
            Some(v) => v,
            None => violation(format!("a stored String key was corrupted: {self:?}")),
        }
    }
    fn with_q<R>(o: u64, f: impl FnOnce(&str) -> R) -> R {
        f(&<Self as KeyT>::mk(o))
    }
}
impl KeyT for Vec<u8> {
    type Q = [u8];
    const NAME: &'static str = "Vec<u8>";
    fn mk(o: u64) -> Self {
        o.to_be_bytes().to_vec()
    }
    fn o(&self) -> u64 {
        match <[u8; 8]>::try_from(self.as_slice()) {
            Ok(b) => u64::from_be_bytes(b),
            Err(_) => violation(format!("a stored byte key was corrupted: {self:?}")),
        }
    }
    fn with_q<R>(o: u64, f: impl FnOnce(&[u8]) -> R) -> R {
        f(&o.to_be_bytes())
    }
}
impl KeyT for Box<u64> {
    type Q = u64;
    const NAME: &'static str = "Box<u64>";
    fn mk(o: u64) -> Self {
        Box::new(o)
    }
    fn o(&self) -> u64 {
        **self
    }
    fn with_q<R>(o: u64, f: impl FnOnce(&u64) -> R) -> R {
        f(&o)
    }
}
impl KeyT for (u32, u16) {
    type Q = (u32, u16);
    const NAME: &'static str = "(u32,u16)";
    fn mk(o: u64) -> Self {
        ((o / 5) as u32, (o % 5) as u16)
    }
    fn o(&self) -> u64 {
        self.0 as u64 * 5 + self.1 as u64
    }
    fn with_q<R>(o: u64, f: impl FnOnce(&(u32, u16)) -> R) -> R {
        f(&<Self as KeyT>::mk(o))
    }
}
/// large, over-aligned key
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(64))]
pub struct Al(pub u64, pub u64);
impl KeyT for Al {
    type Q = Al;
    const NAME: &'static str = "align64";
    fn mk(o: u64) -> Self {
        Al(o, !o)
    }
    fn o(&self) -> u64 {
        // the compiler may assume that a reference is aligned
        if self.1 != !self.0 || std::hint::black_box(self as *const Al as usize) % 64 != 0 {
            violation(format!("a stored over-aligned key was corrupted or misaligned: {self:?}"));
        }
        self.0
    }
    fn with_q<R>(o: u64, f: impl FnOnce(&Al) -> R) -> R {
        f(&<Self as KeyT>::mk(o))
    }
}

/// ordering part of a tracked key
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Ko(pub u64);

/// Tracked key: identity, heap payload, counted and faultable comparison and clone
pub struct Tk {
    o: Ko,
    tag: u32,
    id: u32,
    heap: Box<u64>,
}
impl Debug for Tk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Tk({},tag {},id {})", self.o.0, self.tag, self.id)
    }
}
impl Tk {
    pub fn id(&self) -> u32 {
        self.id
    }
    #[inline]
    fn touch(&self, what: &str) {
        alive(self.id, Class::Key, what);
        if *self.heap != self.o.0 ^ CANARY {
            violation(format!("{what} of a corrupted key (identity {})", self.id));
        }
    }
}
impl Clone for Tk {
    fn clone(&self) -> Self {
        self.touch("clone");
        CLONES.with(|c| c.set(c.get() + 1));
        user_call(2);
        Tk { o: self.o, tag: self.tag, id: born(Class::Key), heap: Box::new(*self.heap) }
    }
}
impl Drop for Tk {
    fn drop(&mut self) {
        died(self.id, Class::Key);
        if *self.heap != self.o.0 ^ CANARY {
            violation(format!("drop of a corrupted key (identity {})", self.id));
        }
        user_drop();
    }
}
impl Ord for Tk {
    fn cmp(&self, other: &Self) -> Ordering {
        self.touch("comparison");
        other.touch("comparison");
        CMP.with(|c| c.set(c.get() + 1));
        user_call(1);
        self.o.cmp(&other.o)
    }
}
impl PartialOrd for Tk {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl PartialEq for Tk {
    fn eq(&self, other: &Self) -> bool {
        self.cmp(other) == Ordering::Equal
    }
}
impl Eq for Tk {}
impl Borrow<Ko> for Tk {
    fn borrow(&self) -> &Ko {
        self.touch("borrow");
        &self.o
    }
}
impl KeyT for Tk {
    type Q = Ko;
    const NAME: &'static str = "tracked";
    fn mk(o: u64) -> Self {
        Self::mk_tag(o, 0)
    }
    fn mk_tag(o: u64, tag: u32) -> Self {
        Tk { o: Ko(o), tag, id: born(Class::Key), heap: Box::new(o ^ CANARY) }
    }
    fn o(&self) -> u64 {
        self.touch("read");
        self.o.0
    }
    fn tag(&self) -> Option<u32> {
        Some(self.tag)
    }
    fn with_q<R>(o: u64, f: impl FnOnce(&Ko) -> R) -> R {
        f(&Ko(o))
    }
    fn verify(&self) {
        self.touch("read")
    }
}

// ---------------------------------------------------------------- value trait
pub trait ValT: Debug + 'static {
    const NAME: &'static str;
    fn mk(v: u64) -> Self;
    fn get(&self) -> u64;
    /// what get returns for mk(v)
    fn norm(v: u64) -> u64 {
        v
    }
}
impl ValT for u64 {
    const NAME: &'static str = "u64";
    fn mk(v: u64) -> Self {
        v
    }
    fn get(&self) -> u64 {
        *self
    }
}
impl ValT for u8 {
    const NAME: &'static str = "u8";
    fn mk(v: u64) -> Self {
        v as u8
    }
    fn get(&self) -> u64 {
        *self as u64
    }
    fn norm(v: u64) -> u64 {
        v as u8 as u64
    }
}
impl ValT for () {
    const NAME: &'static str = "()";
    fn mk(_: u64) -> Self {}
    fn get(&self) -> u64 {
        0
    }
    fn norm(_: u64) -> u64 {
        0
    }
}
impl ValT for String {
    const NAME: &'static str = "String";
    fn mk(v: u64) -> Self {
        format!("value number {v:020}")
    }
    fn get(&self) -> u64 {
        match self.as_str().get(13..).and_then(|s| s.parse().ok()) {
            Some(v) => v,
            None => violation(format!("a stored String value was corrupted: {self:?}")),
        }
    }
}
#[derive(Clone, Debug)]
pub struct Big([u64; 40]);
impl ValT for Big {
    const NAME: &'static str = "320 bytes";
    fn mk(v: u64) -> Self {
        let mut a = [0; 40];
        for (i, x) in a.iter_mut().enumerate() {
            *x = v.rotate_left(i as u32);
        }
        Big(a)
    }
    fn get(&self) -> u64 {
        for (i, x) in self.0.iter().enumerate() {
            if *x != self.0[0].rotate_left(i as u32) {
                violation("a stored large value was torn".into());
            }
        }
        self.0[0]
    }
}
impl ValT for Al {
    const NAME: &'static str = "align64";
    fn mk(v: u64) -> Self {
        Al(v, !v)
    }
    fn get(&self) -> u64 {
        KeyT::o(self)
    }
}
/// Tracked value: identity and heap payload. Clone is counted but never faulted.
pub struct Tv {
    v: u64,
    id: u32,
    heap: Box<u64>,
}
impl Debug for Tv {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Tv({},id {})", self.v, self.id)
    }
}
impl Tv {
    pub fn id(&self) -> u32 {
        self.id
    }
}
impl Clone for Tv {
    fn clone(&self) -> Self {
        let v = self.get();
        user_call(16);
        Tv { v, id: born(Class::Val), heap: Box::new(*self.heap) }
    }
}
impl Drop for Tv {
    fn drop(&mut self) {
        died(self.id, Class::Val);
        if *self.heap != self.v ^ CANARY {
            violation(format!("drop of a corrupted value (identity {})", self.id));
        }
        user_drop();
    }
}
impl ValT for Tv {
    const NAME: &'static str = "tracked";
    fn mk(v: u64) -> Self {
        Tv { v, id: born(Class::Val), heap: Box::new(v ^ CANARY) }
    }
    fn get(&self) -> u64 {
        alive(self.id, Class::Val, "read");
        if *self.heap != self.v ^ CANARY {
            violation(format!("read of a corrupted value (identity {})", self.id));
        }
        self.v
    }
}

/// zero-sized, with a destructor
#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Zk(());
impl Clone for Zk {
    fn clone(&self) -> Self {
        count_in(Class::Key);
        Zk(())
    }
}
impl Drop for Zk {
    fn drop(&mut self) {
        count_out(Class::Key);
    }
}
impl KeyT for Zk {
    type Q = Zk;
    const NAME: &'static str = "zero-sized with a destructor";
    const MAXO: u64 = 1;
    fn mk(_: u64) -> Self {
        count_in(Class::Key);
        Zk(())
    }
    fn o(&self) -> u64 {
        0
    }
    fn with_q<R>(o: u64, f: impl FnOnce(&Zk) -> R) -> R {
        f(&Zk::mk(o))
    }
}
#[derive(Debug)]
pub struct Zv(());
impl Clone for Zv {
    fn clone(&self) -> Self {
        Zv::mk(0)
    }
}
impl Drop for Zv {
    fn drop(&mut self) {
        count_out(Class::Val);
    }
}
impl ValT for Zv {
    const NAME: &'static str = "zero-sized with a destructor";
    fn mk(_: u64) -> Self {
        count_in(Class::Val);
        Zv(())
    }
    fn get(&self) -> u64 {
        0
    }
    fn norm(_: u64) -> u64 {
        0
    }
}
#[derive(Debug)]
pub struct Za(());
impl Default for Za {
    fn default() -> Self {
        count_in(Class::Agg);
        Za(())
    }
}
impl Clone for Za {
    fn clone(&self) -> Self {
        Za::default()
    }
}
impl Drop for Za {
    fn drop(&mut self) {
        count_out(Class::Agg);
    }
}
impl<K: KeyT, V: ValT> sweep_bptree::augment::Augmentation<K, V> for Za {
    fn from_leaf(_: &[K], _: &[V]) -> Self {
        Za::default()
    }
    fn from_inner(_: &[K], _: &[Self]) -> Self {
        Za::default()
    }
}
impl<K: KeyT, V: ValT> AggT<K, V> for Za {
    const NAME: &'static str = "zero-sized with a destructor";
    fn sum(&self) -> Option<Sum> {
        None
    }
}

// ---------------------------------------------------------------- aggregates
const P61: u64 = (1 << 61) - 1;
fn mulmod(a: u64, b: u64) -> u64 {
    let x = a as u128 * b as u128;
    let r = (x & P61 as u128) as u64 + (x >> 61) as u64;
    if r >= P61 {
        r - P61
    } else {
        r
    }
}
fn addmod(a: u64, b: u64) -> u64 {
    let r = a + b;
    if r >= P61 {
        r - P61
    } else {
        r
    }
}
/// order- and value-sensitive summary: (count, polynomial hash, multiplier)
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Sum {
    pub n: u64,
    pub h: u64,
    pub p: u64,
    pub lo: u64,
    pub hi: u64,
    pub best: u64,
}
impl Default for Sum {
    fn default() -> Self {
        Sum { n: 0, h: 0, p: 1, lo: u64::MAX, hi: 0, best: 0 }
    }
}
impl Sum {
    pub fn one(o: u64, v: u64) -> Self {
        let x = crate::core::mix(crate::core::mix(17, o), v) % P61;
        Sum { n: 1, h: x, p: 1_000_003, lo: o, hi: o, best: v }
    }
    pub fn cat(self, r: Self) -> Self {
        Sum {
            n: self.n + r.n,
            h: addmod(mulmod(self.h, r.p), r.h),
            p: mulmod(self.p, r.p),
            lo: self.lo.min(r.lo),
            hi: self.hi.max(r.hi),
            best: self.best.max(r.best),
        }
    }
}

/// Common view of the aggregates used by the monitors
pub trait AggT<K: KeyT, V: ValT>: Augmentation<K, V> + 'static {
    const NAME: &'static str;
    fn sum(&self) -> Option<Sum>;
    /// what was wrong with the parts it was computed from
    fn flaw(&self) -> Option<&'static str> {
        None
    }
}
impl<K: KeyT, V: ValT> AggT<K, V> for () {
    const NAME: &'static str = "()";
    fn sum(&self) -> Option<Sum> {
        None
    }
}
impl<K: KeyT, V: ValT> AggT<K, V> for sweep_bptree::augment::count::Count {
    const NAME: &'static str = "Count";
    fn sum(&self) -> Option<Sum> {
        None
    }
}

/// plain order-sensitive fold
#[derive(Clone, Default, Debug)]
pub struct Fold(pub Sum);
impl<K: KeyT, V: ValT> Augmentation<K, V> for Fold {
    fn from_inner(_k: &[K], a: &[Self]) -> Self {
        meddle();
        AGG_EVAL.with(|c| c.set(c.get() + 1));
        AGG_ITEMS.with(|c| c.set(c.get() + a.len() as u64));
        Fold(a.iter().fold(Sum::default(), |s, x| s.cat(x.0)))
    }
    fn from_leaf(k: &[K], v: &[V]) -> Self {
        meddle();
        AGG_EVAL.with(|c| c.set(c.get() + 1));
        AGG_ITEMS.with(|c| c.set(c.get() + k.len() as u64));
        Fold(k.iter().zip(v).fold(Sum::default(), |s, (k, v)| s.cat(Sum::one(k.o(), v.get()))))
    }
}
impl<K: KeyT, V: ValT> AggT<K, V> for Fold {
    const NAME: &'static str = "fold";
    fn sum(&self) -> Option<Sum> {
        Some(self.0)
    }
}
/// the same fold, which also looks at the separators it is given: each lies above the entries of the
/// child before it and not above those of the child behind it
#[derive(Clone, Default, Debug)]
pub struct Sep {
    s: Sum,
    flaw: Option<&'static str>,
}
impl<K: KeyT, V: ValT> Augmentation<K, V> for Sep {
    fn from_inner(k: &[K], a: &[Self]) -> Self {
        let mut flaw = a.iter().find_map(|a| a.flaw);
        if k.len() + 1 != a.len() {
            flaw = Some("the number of separators is not one less than the number of children");
        }
        for (i, k) in k.iter().enumerate() {
            let k = k.o();
            if a.get(i).is_some_and(|a| a.s.n > 0 && a.s.hi >= k) {
                flaw = Some("an entry is not below the separator behind its child");
            }
            if a.get(i + 1).is_some_and(|a| a.s.n > 0 && a.s.lo < k) {
                flaw = Some("an entry is below the separator in front of its child");
            }
        }
        Sep { s: a.iter().fold(Sum::default(), |s, x| s.cat(x.s)), flaw }
    }
    fn from_leaf(k: &[K], v: &[V]) -> Self {
        let flaw = (k.len() != v.len()).then_some("a leaf has unequal numbers of keys and values");
        Sep { s: k.iter().zip(v).fold(Sum::default(), |s, (k, v)| s.cat(Sum::one(k.o(), v.get()))), flaw }
    }
}
impl<K: KeyT, V: ValT> AggT<K, V> for Sep {
    const NAME: &'static str = "fold that looks at the separators";
    fn sum(&self) -> Option<Sum> {
        Some(self.s)
    }
    fn flaw(&self) -> Option<&'static str> {
        self.flaw
    }
}
impl<K: KeyT, V: ValT> SearchAugmentation<K, V> for Sep {
    type Query = Find;
    fn locate_in_leaf(q: Find, k: &[K], v: &[V]) -> Option<usize> {
        find_leaf(q, k, v)
    }
    fn locate_in_inner(q: Find, _k: &[K], a: &[Self]) -> Option<(usize, Find)> {
        let s: Vec<Sum> = a.iter().map(|x| x.s).collect();
        find_inner(q, &s)
    }
}
/// the same fold, owning tracked heap memory
pub struct HeapFold {
    pub s: Sum,
    id: u32,
    heap: Vec<u64>,
}
impl HeapFold {
    fn of(s: Sum) -> Self {
        user_call(4);
        HeapFold { s, id: born(Class::Agg), heap: vec![s.h ^ CANARY, s.n] }
    }
    pub fn touch(&self, what: &str) {
        alive(self.id, Class::Agg, what);
        if self.heap.len() != 2 || self.heap[0] != self.s.h ^ CANARY || self.heap[1] != self.s.n {
            violation(format!("{what} of a corrupted aggregate (identity {})", self.id));
        }
    }
}
impl Default for HeapFold {
    fn default() -> Self {
        Self::of(Sum::default())
    }
}
impl Clone for HeapFold {
    fn clone(&self) -> Self {
        self.touch("clone");
        Self::of(self.s)
    }
}
impl Drop for HeapFold {
    fn drop(&mut self) {
        died(self.id, Class::Agg);
        if self.heap.len() != 2 {
            violation(format!("drop of a corrupted aggregate (identity {})", self.id));
        }
        user_drop();
    }
}
impl<K: KeyT, V: ValT> Augmentation<K, V> for HeapFold {
    fn from_inner(_k: &[K], a: &[Self]) -> Self {
        for x in a {
            x.touch("read");
        }
        Self::of(a.iter().fold(Sum::default(), |s, x| s.cat(x.s)))
    }
    fn from_leaf(k: &[K], v: &[V]) -> Self {
        Self::of(k.iter().zip(v).fold(Sum::default(), |s, (k, v)| s.cat(Sum::one(k.o(), v.get()))))
    }
}
impl<K: KeyT, V: ValT> AggT<K, V> for HeapFold {
    const NAME: &'static str = "heap fold";
    fn sum(&self) -> Option<Sum> {
        self.touch("read");
        Some(self.s)
    }
}

/// queries of the user-defined searches (Fold / HeapFold)
#[derive(Clone, Copy, Debug)]
pub enum Find {
    /// the i-th entry
    Nth(u64),
    /// the i-th entry from the back
    NthBack(u64),
    /// the leftmost entry with the largest value
    Best,
    /// by key, using the lo/hi summary only
    ByKey(u64),
}
fn find_inner(mut q: Find, a: &[Sum]) -> Option<(usize, Find)> {
    meddle();
    LOCATES.with(|c| c.set(c.get() + 1));
    match &mut q {
        Find::Nth(i) => {
            for (c, s) in a.iter().enumerate() {
                if *i < s.n {
                    return Some((c, q));
                }
                *i -= s.n;
            }
            None
        }
        Find::NthBack(i) => {
            for (c, s) in a.iter().enumerate().rev() {
                if *i < s.n {
                    return Some((c, q));
                }
                *i -= s.n;
            }
            None
        }
        Find::Best => {
            let m = a.iter().filter(|s| s.n > 0).map(|s| s.best).max()?;
            a.iter().position(|s| s.n > 0 && s.best == m).map(|c| (c, q))
        }
        Find::ByKey(o) => {
            let o = *o;
            a.iter().position(|s| s.n > 0 && s.lo <= o && o <= s.hi).map(|c| (c, q))
        }
    }
}
fn find_leaf<K: KeyT, V: ValT>(q: Find, k: &[K], v: &[V]) -> Option<usize> {
    meddle();
    LOCATES.with(|c| c.set(c.get() + 1));
    match q {
        Find::Nth(i) => (i < k.len() as u64).then_some(i as usize),
        Find::NthBack(i) => (i < k.len() as u64).then(|| k.len() - 1 - i as usize),
        Find::Best => {
            let m = v.iter().map(|v| v.get()).max()?;
            v.iter().position(|v| v.get() == m)
        }
        Find::ByKey(o) => k.iter().position(|k| k.o() == o),
    }
}
impl<K: KeyT, V: ValT> SearchAugmentation<K, V> for Fold {
    type Query = Find;
    fn locate_in_leaf(q: Find, k: &[K], v: &[V]) -> Option<usize> {
        find_leaf(q, k, v)
    }
    fn locate_in_inner(q: Find, _k: &[K], a: &[Self]) -> Option<(usize, Find)> {
        let s: Vec<Sum> = a.iter().map(|x| x.0).collect();
        find_inner(q, &s)
    }
}
impl<K: KeyT, V: ValT> SearchAugmentation<K, V> for HeapFold {
    type Query = Find;
    fn locate_in_leaf(q: Find, k: &[K], v: &[V]) -> Option<usize> {
        find_leaf(q, k, v)
    }
    fn locate_in_inner(q: Find, _k: &[K], a: &[Self]) -> Option<(usize, Find)> {
        let s: Vec<Sum> = a
            .iter()
            .map(|x| {
                x.touch("read");
                x.s
            })
            .collect();
        find_inner(q, &s)
    }
}

// ---------------------------------------------------------------- memory layouts
/// key and value types of all kinds of layouts: sizes that are no power of two, padding, fat and
/// optional pointers, niches
macro_rules! layout {
    ($t:ident, $inner:ty, $name:literal, $max:expr, $mk:expr, $get:expr) => {
        #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
        pub struct $t($inner);
        impl $t {
            fn of(x: u64) -> Self {
                let f: fn(u64) -> $inner = $mk;
                $t(f(x))
            }
            fn val(&self) -> u64 {
                let f: fn(&$inner) -> Option<u64> = $get;
                match f(&self.0) {
                    Some(x) => x,
                    None => violation(format!("a stored {} was corrupted: {:?}", $name, self.0)),
                }
            }
        }
        impl KeyT for $t {
            type Q = $t;
            const NAME: &'static str = $name;
            const MAXO: u64 = $max;
            fn mk(o: u64) -> Self {
                Self::of(o)
            }
            fn o(&self) -> u64 {
                self.val()
            }
            fn with_q<R>(o: u64, f: impl FnOnce(&$t) -> R) -> R {
                f(&Self::of(o))
            }
        }
        impl ValT for $t {
            const NAME: &'static str = $name;
            fn mk(v: u64) -> Self {
                Self::of(Self::norm(v))
            }
            fn get(&self) -> u64 {
                self.val()
            }
            fn norm(v: u64) -> u64 {
                v % $max
            }
        }
    };
}
layout!(Fat, Box<[u8]>, "fat pointer", 1 << 40, |x| x.to_be_bytes().into(), |b| Some(u64::from_be_bytes((**b).try_into().ok()?)));
layout!(Padded, (u64, u8), "padded pair", 1 << 40, |x| (x, x as u8), |p| (p.1 == p.0 as u8).then_some(p.0));
layout!(Odd, [u8; 3], "3 bytes", 1 << 24, |x| [(x >> 16) as u8, (x >> 8) as u8, x as u8], |b| {
    Some((b[0] as u64) << 16 | (b[1] as u64) << 8 | b[2] as u64)
});
layout!(Twelve, [u32; 3], "12 bytes", 1 << 40, |x| [(x >> 32) as u32, x as u32, !x as u32], |w| {
    (w[2] == !w[1]).then_some((w[0] as u64) << 32 | w[1] as u64)
});
layout!(Niche, Option<Box<u64>>, "optional pointer", 1 << 40, |x| (x > 0).then(|| Box::new(x)), |b| {
    Some(b.as_ref().map_or(0, |b| **b))
});
layout!(Wide, u128, "u128", 1 << 40, |x| x as u128 * 0x1_0000_0001_0000_0001, |w| {
    (*w % 0x1_0000_0001_0000_0001 == 0).then_some((*w / 0x1_0000_0001_0000_0001) as u64)
});
layout!(Half, (u32, u16), "padded 6 bytes", 1 << 40, |x| ((x >> 16) as u32, x as u16), |p| {
    Some((p.0 as u64) << 16 | p.1 as u64)
});
/// values of one type, in one collection, with different parts in use
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Some3 {
    Empty,
    Few(u8, u32),
    Text(u64, String),
}
layout!(Mixed, (u64, Some3), "enum", 1 << 40, |x| {
    (x, match x % 3 {
        0 => Some3::Empty,
        1 => Some3::Few(x as u8, x as u32),
        _ => Some3::Text(x, x.to_string()),
    })
}, |m| {
    let ok = match &m.1 {
        Some3::Empty => m.0 % 3 == 0,
        Some3::Few(a, b) => (*a, *b) == (m.0 as u8, m.0 as u32),
        Some3::Text(a, t) => *a == m.0 && t.parse() == Ok(m.0),
    };
    ok.then_some(m.0)
});
