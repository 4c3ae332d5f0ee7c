//! C16: misbehaving user code cannot break memory safety.
//! Orders that contradict themselves, clones that change the key, searches and visitors that name
//! positions which do not exist, groupings that change their mind, aggregates, value clones and
//! destructors that panic. Answers are not judged. Judged
//! are: the identity ledger (dropped twice, used after drop, never initialised), the sanitizer or
//! interpreter the build runs under, the watchdog, and that a position which does not exist panics.
use super::*;
use crate::core::{progress, quietly, Injected};
use crate::dict::{Map, Set, Tree};
use crate::one_of;
use crate::types::*;
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::group::{ExtractGroupSize, FromRef, GroupCount};
use sweep_bptree::augment::SearchAugmentation;
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::tree::Cursor;

// ------------------------------------------------------------------ the misbehaviour
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Sane,
    /// anything
    Random,
    /// the right answer, except every now and then
    Flip(u64),
    Reverse,
    Always(Ordering),
    /// neither side is the larger one
    Asym(Ordering),
    /// a beats b beats c beats a
    Ring,
    /// every other call
    Alternate,
    /// equal to all its neighbours, but not to theirs
    Near(u64),
    /// the first argument decides
    Mine,
    /// panics now and then
    Panic(u64),
}
thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Sane) };
    static CLONE_LIES: Cell<bool> = const { Cell::new(false) };
    static R: RefCell<Option<Rng>> = const { RefCell::new(None) };
    static LIES: Cell<u64> = const { Cell::new(0) };
    /// whether aggregates, destructors and value clones panic now and then
    static FAULTS: Cell<bool> = const { Cell::new(false) };
}
fn dice(n: u64) -> u64 {
    R.with(|r| r.borrow_mut().as_mut().map_or(0, |r| r.below(n)))
}
const ALL: [Ordering; 3] = [Ordering::Less, Ordering::Equal, Ordering::Greater];
fn order(a: u64, b: u64) -> Ordering {
    let s = a.cmp(&b);
    let r = match MODE.with(|m| m.get()) {
        Mode::Sane => s,
        Mode::Random => ALL[dice(3) as usize],
        Mode::Flip(n) => match dice(n) {
            0 => ALL[dice(3) as usize],
            _ => s,
        },
        Mode::Reverse => s.reverse(),
        Mode::Always(o) => o,
        Mode::Asym(o) => {
            if s == Ordering::Equal {
                s
            } else {
                o
            }
        }
        Mode::Ring => ALL[((a % 3 + 3 - b % 3 + 1) % 3) as usize],
        Mode::Alternate => {
            if dice(2) == 0 {
                s
            } else {
                s.reverse()
            }
        }
        Mode::Near(w) => {
            if a.abs_diff(b) <= w {
                Ordering::Equal
            } else {
                s
            }
        }
        Mode::Mine => ALL[(a % 3) as usize],
        Mode::Panic(n) => {
            if dice(n) == 0 {
                std::panic::panic_any(Injected);
            }
            s
        }
    };
    if r != s {
        LIES.with(|l| l.set(l.get() + 1));
    }
    r
}
/// `<`, `>` and the like may disagree with `cmp`, and with each other
fn incomparable() -> bool {
    match MODE.with(|m| m.get()) {
        Mode::Random => dice(8) == 0,
        Mode::Flip(n) => dice(2 * n) == 0,
        _ => false,
    }
}
fn pick_mode(rng: &mut Rng) -> Mode {
    match rng.below(14) {
        0 => Mode::Random,
        1 | 2 => Mode::Flip(rng.pick(&[2, 5, 20, 100])),
        3 => Mode::Reverse,
        4 => Mode::Always(ALL[rng.idx(3)]),
        5 => Mode::Asym(ALL[rng.idx(3)]),
        6 => Mode::Ring,
        7 => Mode::Alternate,
        8 => Mode::Near(rng.pick(&[1, 5, 100])),
        9 => Mode::Mine,
        10 => Mode::Panic(rng.pick(&[3, 30, 200])),
        _ => Mode::Sane,
    }
}
struct Wild;
fn wild(ctx: &mut Ctx, m: Mode) -> Wild {
    R.with(|r| *r.borrow_mut() = Some(ctx.rng.fork()));
    MODE.with(|x| x.set(m));
    FAULTS.with(|x| x.set(ctx.rng.chance(2, 3)));
    Wild
}
impl Drop for Wild {
    fn drop(&mut self) {
        MODE.with(|x| x.set(Mode::Sane));
        CLONE_LIES.with(|x| x.set(false));
        FAULTS.with(|x| x.set(false));
    }
}

/// tracked key with a treacherous order
pub struct Wk(Tk);
#[derive(Clone, Copy, Debug)]
pub struct Wq(u64);
impl Debug for Wk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl Clone for Wk {
    fn clone(&self) -> Self {
        let k = self.0.clone();
        if CLONE_LIES.with(|x| x.get()) && dice(4) == 0 {
            return Wk(Tk::mk(dice(1000)));
        }
        Wk(k)
    }
}
impl PartialEq for Wk {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Wk {}
impl PartialOrd for Wk {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        if incomparable() {
            return None;
        }
        Some(self.cmp(o))
    }
}
impl Ord for Wk {
    fn cmp(&self, o: &Self) -> Ordering {
        order(self.0.o(), o.0.o())
    }
}
impl PartialEq for Wq {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Wq {}
impl PartialOrd for Wq {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        if incomparable() {
            return None;
        }
        Some(self.cmp(o))
    }
}
impl Ord for Wq {
    fn cmp(&self, o: &Self) -> Ordering {
        order(self.0, o.0)
    }
}
static QS: std::sync::OnceLock<Vec<Wq>> = std::sync::OnceLock::new();
impl Borrow<Wq> for Wk {
    fn borrow(&self) -> &Wq {
        self.0.verify();
        // a view that need not agree with the key
        let o = self.0.o() & 4095;
        &QS.get_or_init(|| (0..4096).map(Wq).collect())[o as usize]
    }
}
impl KeyT for Wk {
    type Q = Wq;
    const NAME: &'static str = "treacherous";
    fn mk(o: u64) -> Self {
        Wk(Tk::mk(o))
    }
    fn o(&self) -> u64 {
        self.0.o()
    }
    fn with_q<R>(o: u64, f: impl FnOnce(&Wq) -> R) -> R {
        f(&Wq(o))
    }
}

/// group of a key, which may change
#[derive(Clone, Debug)]
pub struct Wg(u64, Vec<u64>);
impl FromRef<Wk> for Wg {
    fn from_ref(k: &Wk) -> Self {
        let mut g = k.o() / 9;
        if MODE.with(|m| m.get()) != Mode::Sane && dice(6) == 0 {
            g = dice(100);
            LIES.with(|l| l.set(l.get() + 1));
        }
        Wg(g, vec![g])
    }
}
impl Wg {
    fn v(&self) -> u64 {
        if self.1 != [self.0] {
            violation("a group name was corrupted".into());
        }
        self.0
    }
}
impl PartialEq for Wg {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Wg {}
impl PartialOrd for Wg {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Wg {
    fn cmp(&self, o: &Self) -> Ordering {
        order(self.v(), o.v())
    }
}
type Gc = GroupCount<Wg>;

/// aggregate whose search obeys the query to the letter: one position per level
pub struct Evil(HeapFold);
impl Clone for Evil {
    fn clone(&self) -> Self {
        Evil(self.0.clone())
    }
}
impl Default for Evil {
    fn default() -> Self {
        Evil(HeapFold::default())
    }
}
impl<K: KeyT, V: ValT> Augmentation<K, V> for Evil {
    fn from_inner(_: &[K], a: &[Self]) -> Self {
        for x in a {
            x.0.touch("read");
        }
        Evil(HeapFold::default())
    }
    fn from_leaf(k: &[K], v: &[V]) -> Self {
        for k in k {
            k.o();
        }
        for v in v {
            v.get();
        }
        Evil(HeapFold::default())
    }
}
#[derive(Clone, Debug)]
pub struct Way {
    /// children to take, then the entry; usize::MAX - i: that many beyond the end
    at: Vec<usize>,
    pos: usize,
}
thread_local! {
    /// set when a position that does not exist was returned to the library
    static BAD: Cell<Option<(usize, usize)>> = const { Cell::new(None) };
}
const OVER: usize = usize::MAX / 2;
const FAR: usize = usize::MAX / 4 * 3;
fn resolve(x: usize, n: usize) -> usize {
    let p = match x {
        _ if x == usize::MAX || x == usize::MAX - 1 => x,
        // equal to an existing position in the low bits
        _ if x >= FAR => ((x - FAR) % 64 % n.max(1)).wrapping_add(1usize << (((x - FAR) >> 8) % 64)),
        _ if x >= OVER => n + (x - OVER),
        _ if n > 0 => x % n,
        _ => 0,
    };
    if p >= n {
        BAD.with(|b| b.set(Some((p, n))));
    }
    p
}
impl Way {
    fn step(&mut self, n: usize) -> usize {
        let x = self.at.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        resolve(x, n)
    }
    fn random(rng: &mut Rng, bad: bool, n: usize) -> Way {
        let mut at: Vec<usize> = (0..8).map(|_| rng.idx(1 << 20)).collect();
        if bad {
            let i = rng.idx(5);
            at[i] = match rng.below(11) {
                8.. => FAR + (rng.pick(&[8, 15, 16, 31, 32, 33, 48, 63]) * 256 + rng.idx(64)),
                0 => usize::MAX,
                1 => usize::MAX - 1,
                2 => OVER + n,
                3 => OVER + rng.idx(4 * n),
                4 => OVER + (1 << rng.below(40)),
                _ => OVER + rng.idx(3),
            };
        }
        Way { at, pos: 0 }
    }
}
impl<K: KeyT, V: ValT> SearchAugmentation<K, V> for Evil {
    type Query = Way;
    fn locate_in_leaf(mut q: Way, k: &[K], v: &[V]) -> Option<usize> {
        check!(k.len() == v.len(), "a leaf is shown with {} keys and {} values", k.len(), v.len());
        Some(q.step(k.len()))
    }
    fn locate_in_inner(mut q: Way, _: &[K], a: &[Self]) -> Option<(usize, Way)> {
        for x in a {
            x.0.touch("read");
        }
        Some((q.step(a.len()), q))
    }
}
/// visitor obeying a `Way`, reading all it is shown
struct Lost(Way);
impl<K: KeyT, V: ValT, A> DescendVisit<K, V, A> for Lost {
    type Result = u64;
    fn visit_inner(&mut self, keys: &[K], aggs: &[A]) -> DescendVisitResult<u64> {
        for k in keys {
            k.o();
        }
        DescendVisitResult::GoDown(self.0.step(aggs.len()))
    }
    fn visit_leaf(&mut self, keys: &[K], vals: &[V]) -> Option<u64> {
        Some(keys.iter().map(|k| k.o()).sum::<u64>() ^ vals.iter().map(|v| v.get()).sum::<u64>())
    }
}

// ------------------------------------------------------------------ calls, tolerating panics
/// true: the call returned
fn call<T>(ctx: &mut Ctx, what: &'static str, f: impl FnOnce() -> T) -> Option<T> {
    ev(what, LIES.with(|l| l.get()), 0);
    ctx.add("calls");
    let faulted = FAULTS.with(|x| x.get()) && ctx.rng.chance(1, 12);
    if faulted {
        FAULTED.with(|x| x.set(0));
        let most = ctx.rng.pick(&[2, 6, 20, 100]);
        arm(ctx.rng.below(most) as i64, ctx.rng.pick(&[4, 4, 4, 8, 8, 16, 28, 31]));
    }
    let r = quietly(|| catch_unwind(AssertUnwindSafe(f)));
    if faulted {
        disarm();
        let k = FAULTED.with(|x| x.get());
        for (b, name) in [(4, "panics_in_aggregates"), (8, "panics_in_destructors"), (16, "panics_in_value_clones")] {
            if k & b != 0 {
                ctx.add(name);
            }
        }
    }
    match r {
        Ok(t) => Some(t),
        Err(e) => {
            ctx.add(if e.is::<Injected>() { "panics_of_the_user_code" } else { "panics_of_the_library" });
            None
        }
    }
}
/// every call naming a position that does not exist must panic
fn must_panic<T>(ctx: &mut Ctx, what: &'static str, f: impl FnOnce() -> T) {
    BAD.with(|b| b.set(None));
    let r = call(ctx, what, f);
    if let Some((p, n)) = BAD.with(|b| b.get()) {
        ctx.add("nonexistent_positions");
        check!(r.is_none(), "{what}: position {p} of {n} was named, and the call returned instead of panicking");
    }
}
/// nothing an iterator does may go on forever
fn drain<T>(ctx: &mut Ctx, what: &'static str, lim: usize, it: impl Iterator<Item = T>, mut read: impl FnMut(&T)) {
    let mut n = 0usize;
    call(ctx, what, || {
        for x in it {
            read(&x);
            n += 1;
            if n % 4096 == 0 {
                progress();
            }
            check!(n <= lim, "{what} yields more than {lim} items, more than were ever inserted");
        }
    });
    ctx.st.add("items_read", n as u64);
}

struct Env {
    dom: u64,
    inserted: usize,
    max: usize,
}
impl Env {
    fn key(&self, ctx: &mut Ctx) -> u64 {
        ctx.rng.below(self.dom)
    }
}

fn basic<D, V, A>(ctx: &mut Ctx, e: &mut Env, d: &mut D)
where
    D: Dict<Wk, V, A>,
    V: ValT,
    A: Augmentation<Wk, V>,
{
    let o = e.key(ctx);
    let grow = d.len() < e.max;
    match ctx.rng.below(16) {
        0..=6 if grow => {
            e.inserted += 1;
            call(ctx, "insert", || d.insert(Wk::mk(o), V::mk(o)).map(|v| v.get()));
        }
        0..=6 | 7..=10 => {
            let k = Wk::mk(o);
            if ctx.rng.chance(1, 2) {
                call(ctx, "remove", || d.remove::<Wk>(&k).map(|v| v.get()));
            } else {
                call(ctx, "remove", || d.remove::<Wq>(&Wq(o)).map(|v| v.get()));
            }
        }
        11 => {
            let k = Wk::mk(o);
            call(ctx, "get", || d.get::<Wk>(&k).map(|v| v.get()));
            call(ctx, "get", || d.get::<Wq>(&Wq(o)).map(|v| v.get()));
        }
        12 => {
            call(ctx, "get_mut", || {
                if let Some(v) = d.get_mut::<Wq>(&Wq(o)) {
                    *v = V::mk(o + 1);
                }
            });
        }
        13 => {
            call(ctx, "ends", || {
                let f = d.first().flatten().map(|x| (x.0.o(), x.1.get()));
                let l = d.last().flatten().map(|x| (x.0.o(), x.1.get()));
                (f, l, d.len(), d.is_empty())
            });
        }
        14 if ctx.rng.chance(1, 4) => read_all(ctx, e, d),
        _ => {
            // what present entries? remove by what iteration shows
            let i = ctx.rng.idx(d.len().max(1));
            let k = call(ctx, "iter", || d.iter().nth(i).map(|x| x.0.o())).flatten();
            if let Some(k) = k {
                let k = Wk::mk(k);
                call(ctx, "remove", || d.remove::<Wk>(&k).map(|v| v.get()));
            }
        }
    }
}
fn read_all<D, V, A>(ctx: &mut Ctx, e: &Env, d: &D)
where
    D: Dict<Wk, V, A>,
    V: ValT,
    A: Augmentation<Wk, V>,
{
    let lim = e.inserted + 16;
    let back = ctx.rng.chance(1, 2);
    let mut c2 = 0;
    call(ctx, "iterate", || {
        let mut n = 0;
        let mut it = d.iter();
        loop {
            let x = match (n % 3, back) {
                (0, true) => it.next_back(),
                _ => it.next(),
            };
            let Some((k, v)) = x else { break };
            black_box((k.o(), v.get()));
            n += 1;
            check!(n <= lim, "iteration yields more than {lim} items, more than were ever inserted");
        }
        c2 = n;
    });
    ctx.st.add("items_read", c2 as u64);
}

type More<D, V, A> = fn(&mut Ctx, &mut Env, &mut D, std::marker::PhantomData<(V, A)>);

fn body<D, V, A>(ctx: &mut Ctx, more: More<D, V, A>, finish: fn(&mut Ctx, &Env, D))
where
    D: Dict<Wk, V, A>,
    V: ValT,
    A: Augmentation<Wk, V>,
{
    use std::fmt::Write;
    let n = ctx.n as u64;
    LIES.with(|l| l.set(0));
    let max = match ctx.rng.below(5) {
        _ if ctx.miri() => ctx.rng.range(3, 6 * n),
        0 => ctx.rng.range(1, 3 * n),
        1 | 2 => ctx.rng.range(n, 14 * n),
        3 => ctx.rng.range(10 * n, 40 * n),
        _ => ctx.rng.range(20 * n, if n > 16 { 60 } else { 200 } * n),
    } as usize;
    // borrowed forms cover 4096 key numbers; beyond that they disagree with the keys, as intended
    let dom = (max as u64 * ctx.rng.pick(&[1, 2, 4])).max(2);
    let mut e = Env { dom, inserted: 0, max };
    let steps = if ctx.miri() { 60 + 2 * max } else { ctx.steps(200 + 4 * max) };
    // start from sane contents, or from hostile ones
    let mut d = match ctx.rng.below(3) {
        0 => D::create(),
        _ => {
            let m = if ctx.rng.chance(1, 3) { pick_mode(&mut ctx.rng) } else { Mode::Sane };
            let c = ctx.rng.idx(max + 1);
            let sorted = ctx.rng.chance(2, 3) || D::TREE && m == Mode::Sane && ctx.rng.chance(1, 2);
            let ks: Vec<u64> =
                (0..c as u64).map(|i| if sorted { i * dom / (c as u64) } else { ctx.rng.below(dom) }).collect();
            e.inserted += c;
            let w = wild(ctx, m);
            // from a source that lies about its size and goes on after its end, at times
            let odd = ctx.rng.chance(1, 3).then(|| (ctx.rng.below(crate::dict::Odd::<()>::HINTS), ctx.rng.chance(1, 2)));
            if odd.is_some() {
                ctx.add("odd_sources");
            }
            let d = call(ctx, "bulk load", || {
                let items = ks.iter().map(|o| (Wk::mk(*o), V::mk(*o))).collect();
                match odd {
                    Some((h, b)) => D::from_odd(crate::dict::Odd::new(items, h, b.then(|| (Wk::mk(0), V::mk(0))))),
                    None => D::bulk(items),
                }
            });
            drop(w);
            d.unwrap_or_else(D::create)
        }
    };
    let mut modes = 0;
    let mut i = 0;
    while i < steps && !ctx.late() {
        let m = pick_mode(&mut ctx.rng);
        let short = ctx.rng.chance(1, 3);
        let span = ctx.rng.range(1, if short { 8 } else { 60 + max as u64 });
        let w = wild(ctx, m);
        CLONE_LIES.with(|x| x.set(m != Mode::Sane && ctx.rng.chance(1, 8)));
        modes += 1;
        ctx.note(m_hash(m));
        for _ in 0..span {
            i += 1;
            if ctx.rng.chance(1, 6) {
                more(ctx, &mut e, &mut d, std::marker::PhantomData);
            } else {
                basic::<D, V, A>(ctx, &mut e, &mut d);
            }
        }
        drop(w);
        if ctx.rng.chance(1, 6) {
            read_all::<D, V, A>(ctx, &e, &d);
        }
    }
    // under a sane order everything is still usable, whatever it answers
    for _ in 0..30 {
        basic::<D, V, A>(ctx, &mut e, &mut d);
    }
    read_all::<D, V, A>(ctx, &e, &d);
    let lies = LIES.with(|l| l.get());
    ctx.st.add("contradictory_answers", lies);
    ctx.st.add("order_modes_entered", modes);
    ctx.nontrivial = lies > 0 && e.inserted > ctx.n;
    ctx.note(lies);
    ctx.note(d.len() as u64);
    let _ = write!(
        ctx.desc,
        "{i} calls under {modes} orders, {lies} contradictory comparisons, capacity {}, {} entries inserted, {} left",
        ctx.n,
        e.inserted,
        d.len()
    );
    finish(ctx, &e, d);
}
fn m_hash(m: Mode) -> u64 {
    match m {
        Mode::Flip(n) | Mode::Near(n) | Mode::Panic(n) => n,
        Mode::Always(o) | Mode::Asym(o) => (1000 + o as i64) as u64,
        Mode::Random => 2000,
        Mode::Ring => 2001,
        Mode::Reverse => 2002,
        _ => 2003,
    }
}

thread_local! {
    static CURSORS: RefCell<Vec<Cursor<Wk>>> = const { RefCell::new(Vec::new()) };
}
fn tree_more<V: ValT + Clone, A: Augmentation<Wk, V>>(
    ctx: &mut Ctx,
    e: &mut Env,
    d: &mut Tree<Wk, V, A>,
    _: std::marker::PhantomData<(V, A)>,
) {
    let o = e.key(ctx);
    match ctx.rng.below(10) {
        0 => {
            let k = Wk::mk(o);
            let c = call(ctx, "get_cursor", || {
                d.get_cursor(&k).map(|(c, v)| {
                    black_box(v.map(|v| v.get()));
                    c
                })
            });
            if let Some(Some(c)) = c {
                CURSORS.with(|cs| {
                    let mut cs = cs.borrow_mut();
                    if cs.len() > 8 {
                        cs.remove(0);
                    }
                    cs.push(c)
                });
            }
        }
        1 => {
            let c = call(ctx, "cursor ends", || {
                let l = Cursor::last(d).map(|x| x.0);
                Cursor::first(d).map(|x| x.0).or(l)
            });
            if let Some(Some(c)) = c {
                CURSORS.with(|cs| cs.borrow_mut().insert(0, c));
            }
        }
        2..=5 => {
            let c = CURSORS.with(|cs| {
                let mut cs = cs.borrow_mut();
                (!cs.is_empty()).then(|| {
                    let i = dice(cs.len() as u64) as usize % cs.len();
                    cs.swap_remove(i)
                })
            });
            if let Some(c) = c {
                call(ctx, "cursor value", || (c.value(d).map(|v| v.get()), c.exists(d), c.key().o()));
                let n = call(ctx, "cursor next", || {
                    c.next_with_value(d).map(|(c, v)| {
                        black_box(v.get());
                        c
                    })
                });
                let p = call(ctx, "cursor prev", || {
                    c.prev_with_value(d).map(|(c, v)| {
                        black_box(v.get());
                        c
                    })
                });
                CURSORS.with(|cs| {
                    let mut cs = cs.borrow_mut();
                    cs.extend(n.flatten());
                    cs.extend(p.flatten());
                    cs.truncate(10);
                });
            }
        }
        6 if ctx.rng.chance(1, 3) => {
            let c = call(ctx, "clone", || d.clone());
            if let Some(c) = c {
                read_all::<Tree<Wk, V, A>, V, A>(ctx, e, &c);
                if ctx.rng.chance(1, 2) {
                    *d = c;
                }
            }
        }
        7 if ctx.rng.chance(1, 30) => {
            call(ctx, "clear", || d.clear());
        }
        8 if ctx.rng.chance(1, 8) => {
            let lim = e.inserted + 16;
            let stop = ctx.rng.idx(d.len() + 1) + ctx.rng.idx(2) * lim;
            if let Some(c) = call(ctx, "clone", || d.clone()) {
                let mut k = 0;
                call(ctx, "consume", || {
                    let mut it = c.into_iter();
                    while k < stop {
                        let x = if k % 5 == 3 { it.next_back() } else { it.next() };
                        let Some((a, b)) = x else { break };
                        black_box((a.o(), b.get()));
                        k += 1;
                        check!(k <= lim, "consuming yields more than {lim} items, more than were ever inserted");
                    }
                });
                ctx.st.add("items_read", k as u64);
            }
        }
        _ => {
            let bad = ctx.rng.chance(1, 2);
            let w = Way::random(&mut ctx.rng, bad, ctx.n);
            must_panic(ctx, "a visitor", || d.visit(Lost(w)));
        }
    }
}
fn evil<D, V>(ctx: &mut Ctx, _: &mut Env, d: &mut D, _: std::marker::PhantomData<(V, Evil)>)
where
    D: Dict<Wk, V, Evil>,
    V: ValT,
{
    let bad = ctx.rng.chance(1, 2);
    let w = Way::random(&mut ctx.rng, bad, ctx.n);
    match ctx.rng.below(4) {
        0 => must_panic(ctx, "get_by_augmentation", || d.find(w).map(|x| (x.0.o(), x.1.get()))),
        1 => must_panic(ctx, "get_mut_by_augmentation", || {
            if let Some(v) = d.find_mut(w) {
                *v = V::mk(v.get() + 1);
            }
        }),
        2 => must_panic(ctx, "remove_by_augmentation", || d.take(w).map(|x| (x.0.o(), x.1.get()))),
        _ => must_panic(ctx, "a visitor", || d.visit(Lost(w))),
    }
}
fn evil_tree<V: ValT + Clone>(
    ctx: &mut Ctx,
    e: &mut Env,
    d: &mut Tree<Wk, V, Evil>,
    p: std::marker::PhantomData<(V, Evil)>,
) {
    if ctx.rng.chance(1, 2) {
        evil(ctx, e, d, p)
    } else {
        tree_more(ctx, e, d, p)
    }
}
fn counted<D: Dict<Wk, Tv, Count>>(
    ctx: &mut Ctx,
    e: &mut Env,
    d: &mut D,
    _: std::marker::PhantomData<(Tv, Count)>,
) {
    let i = ctx.rng.idx(d.len() + 2);
    let o = e.key(ctx);
    match ctx.rng.below(4) {
        0 => {
            call(ctx, "position", || d.find(i).map(|x| (x.0.o(), x.1.get())));
        }
        1 => {
            call(ctx, "position mut", || d.find_mut(i).map(|x| x.get()));
        }
        2 => {
            call(ctx, "position removal", || d.take(i).map(|x| (x.0.o(), x.1.get())));
        }
        _ => {
            let k = Wk::mk(o);
            call(ctx, "rank", || d.rank(&k).is_ok());
        }
    }
}
fn grouped<D: Dict<Wk, Tv, Gc>>(ctx: &mut Ctx, e: &mut Env, d: &mut D, _: std::marker::PhantomData<(Tv, Gc)>) {
    let o = e.key(ctx);
    let g = Wg(o / 9, vec![o / 9]);
    let far = ctx.rng.far(1);
    let off = ctx.rng.pick(&[0, 1, 5, 100, usize::MAX, far]);
    match ctx.rng.below(6) {
        0 => {
            call(ctx, "groups", || {
                let a = d.root_agg();
                (a.group_count(), a.is_zero(), a.max_group().map(|x| (x.0.v(), x.1)))
            });
        }
        1 => {
            call(ctx, "group size", || d.visit(ExtractGroupSize::<Wg, Wk>::new(g)));
        }
        2 => {
            call(ctx, "group entry", || d.find((g, off)).map(|x| (x.0.o(), x.1.get())));
        }
        3 => {
            call(ctx, "group entry mut", || d.find_mut((g, off)).map(|x| x.get()));
        }
        4 => {
            call(ctx, "group removal", || d.take((g, off)).map(|x| (x.0.o(), x.1.get())));
        }
        _ => {
            let k = Wk::mk(o);
            call(ctx, "group rank", || d.rank(&k).is_ok());
        }
    }
}
fn set_more(ctx: &mut Ctx, e: &mut Env, d: &mut Set<Wk>, _: std::marker::PhantomData<((), ())>) {
    match ctx.rng.below(4) {
        0 | 1 => {
            let mut b: Set<Wk> = Set::default();
            let c = ctx.rng.idx(3 * ctx.n);
            let ks: Vec<u64> = (0..c).map(|_| e.key(ctx)).collect();
            call(ctx, "insert", || {
                for k in ks {
                    b.insert(Wk::mk(k));
                }
            });
            let lim = e.inserted + c + 16;
            let mut n = 0u64;
            call(ctx, "union", || {
                for k in d.union(&b) {
                    black_box(k.o());
                    n += 1;
                    check!(n <= lim as u64, "the union yields more than {lim} items, more than were ever inserted");
                }
                let u = d.union(&b);
                black_box(u.size_hint());
                let mut v = u.clone();
                v.next();
                drop(u);
                black_box(v.next().map(|k| k.o()));
            });
            ctx.st.add("items_read", n);
            ctx.add("unions");
        }
        2 if ctx.rng.chance(1, 20) => {
            call(ctx, "clear", || d.clear());
        }
        3 if ctx.rng.chance(1, 20) => {
            let x = std::mem::take(d);
            let lim = e.inserted + 16;
            drain(ctx, "consuming a set", lim, x.into_iter(), |k| {
                black_box(k.o());
            });
        }
        _ => {
            call(ctx, "ends", || (d.first().map(|k| k.o()), d.last().map(|k| k.o())));
        }
    }
}

fn plain_end<D>(ctx: &mut Ctx, _: &Env, d: D) {
    call(ctx, "drop", || drop(d));
}
fn tree_end<V: ValT, A: Augmentation<Wk, V>>(ctx: &mut Ctx, e: &Env, d: Tree<Wk, V, A>) {
    // cursors outlive the tree
    let cs = CURSORS.with(|cs| std::mem::take(&mut *cs.borrow_mut()));
    if ctx.rng.chance(1, 3) {
        drain(ctx, "consuming", e.inserted + 16, d.into_iter(), |x| {
            black_box((x.0.o(), x.1.get()));
        });
    } else {
        call(ctx, "drop", || drop(d));
    }
    for c in cs {
        black_box(c.key().o());
    }
}

/// positions that do not exist, in a collection that is otherwise well treated
fn stray<D, V>(ctx: &mut Ctx)
where
    D: Dict<Wk, V, Evil>,
    V: ValT,
{
    use std::fmt::Write;
    let n = ctx.n as u64;
    let c = match ctx.rng.below(4) {
        0 => ctx.rng.below(n + 1),
        1 => ctx.rng.range(n, 5 * n),
        _ if ctx.miri() => ctx.rng.range(n, 6 * n),
        2 => ctx.rng.range(5 * n, 30 * n),
        _ => ctx.rng.range(n * n / 4, 2 * n * n),
    };
    let mut d = D::create();
    let mut e = Env { dom: 2 * c + 2, inserted: 0, max: c as usize + 2 };
    for i in 0..c {
        let o = (i * 7919) % e.dom;
        d.insert(Wk::mk(o), V::mk(i));
    }
    e.inserted = c as usize;
    let k = ctx.steps(300);
    for _ in 0..k {
        if ctx.late() {
            break;
        }
        evil::<D, V>(ctx, &mut e, &mut d, std::marker::PhantomData);
        if ctx.rng.chance(1, 4) {
            basic::<D, V, Evil>(ctx, &mut e, &mut d);
        }
    }
    read_all::<D, V, Evil>(ctx, &e, &d);
    ctx.nontrivial = c > n;
    ctx.note(mix(c, k as u64));
    let _ = write!(ctx.desc, "{k} searches and visitors, half of them naming a position that does not exist, {c} entries");
    call(ctx, "drop", || drop(d));
}

/// Aggregates that panic again and again while one stretch of the tree is taken away leave nodes the
/// ordinary rules do not know: inner nodes with a single child, roots without keys. Then removals and
/// insertions that work go through the same stretch.
fn erosion<D>(ctx: &mut Ctx)
where
    D: Dict<Wk, Tv, HeapFold>,
{
    use std::fmt::Write;
    let n = ctx.n as u64;
    let c = match ctx.rng.below(4) {
        _ if ctx.miri() => ctx.rng.range(2 * n, 9 * n),
        0 => ctx.rng.range(n, 4 * n),
        1 => ctx.rng.range(n * n / 4, n * n),
        _ => ctx.rng.range(n * n / 2, if n > 16 { 2 * n * n } else { 20 * n * n }),
    };
    let mut d = if ctx.rng.chance(1, 2) {
        D::bulk((0..c).map(|o| (Wk::mk(o), Tv::mk(o))).collect())
    } else {
        let mut d = D::create();
        for i in 0..c {
            let o = if i % 2 == 0 { i } else { c - i };
            d.insert(Wk::mk(o), Tv::mk(o));
        }
        d
    };
    let mut e = Env { dom: c + 1, inserted: c as usize, max: 2 * c as usize };
    let rounds = ctx.rng.range(2, 12);
    for _ in 0..rounds {
        if ctx.late() {
            break;
        }
        // one stretch, either way, with faults this often
        let wide = ctx.rng.chance(1, 3);
        let w = ctx.rng.range(1, if wide { c } else { 3 * n * n.min(16) }).min(c);
        let (from, up) = (ctx.rng.below(c - w + 1), ctx.rng.chance(1, 2));
        let per = ctx.rng.pick(&[0, 30, 60, 90, 100]);
        let most = ctx.rng.pick(&[1, 2, 4, 8]);
        let keep = ctx.rng.pick(&[0, 0, 3, 10]);
        for i in 0..w {
            let o = if up { from + i } else { from + w - 1 - i };
            if keep > 0 && ctx.rng.chance(1, keep) {
                continue;
            }
            let k = Wk::mk(o);
            let back = ctx.rng.chance(1, 40);
            let armed = ctx.rng.below(100) < per;
            if armed {
                FAULTED.with(|x| x.set(0));
                arm(ctx.rng.below(most) as i64, 4);
            }
            if back {
                e.inserted += 1;
                call(ctx, "insert", || d.insert(k, Tv::mk(o)).map(|v| v.get()));
            } else {
                call(ctx, "remove", || d.remove::<Wk>(&k).map(|v| v.get()));
            }
            disarm();
            if armed && FAULTED.with(|x| x.get()) != 0 {
                ctx.add("panics_in_aggregates");
                ctx.add("eroded");
            }
        }
        match ctx.rng.below(3) {
            0 => read_all::<D, Tv, HeapFold>(ctx, &e, &d),
            1 => {
                // fill it again
                for i in 0..ctx.rng.below(w + 1) {
                    let o = from + (i * 7) % w;
                    e.inserted += 1;
                    call(ctx, "insert", || d.insert(Wk::mk(o), Tv::mk(o)).map(|v| v.get()));
                }
            }
            _ => {}
        }
    }
    read_all::<D, Tv, HeapFold>(ctx, &e, &d);
    ctx.nontrivial = c > n;
    ctx.note(mix(c, rounds));
    let _ = write!(ctx.desc, "{rounds} stretches removed under panicking aggregates, {c} entries, {} left", d.len());
    call(ctx, "drop", || drop(d));
}

pub fn episode(ctx: &mut Ctx) {
    one_of!(ctx,
        3 => body::<Tree<Wk, Tv, HeapFold>, Tv, HeapFold>(ctx, tree_more, tree_end),
        1 => body::<Tree<Wk, Zv, ()>, Zv, ()>(ctx, tree_more, tree_end),
        3 => body::<Tree<Wk, Tv, Evil>, Tv, Evil>(ctx, evil_tree, tree_end),
        2 => body::<Map<Wk, Tv, Evil>, Tv, Evil>(ctx, evil, plain_end),
        2 => body::<Map<Wk, Tv, Count>, Tv, Count>(ctx, counted, plain_end),
        2 => body::<Tree<Wk, Tv, Count>, Tv, Count>(ctx, counted, tree_end),
        2 => body::<Map<Wk, Tv, Gc>, Tv, Gc>(ctx, grouped, plain_end),
        2 => body::<Tree<Wk, Tv, Gc>, Tv, Gc>(ctx, grouped, tree_end),
        2 => body::<Set<Wk>, (), ()>(ctx, set_more, plain_end),
        2 => stray::<Tree<Wk, Tv, Evil>, Tv>(ctx),
        2 => erosion::<Tree<Wk, Tv, HeapFold>>(ctx),
        1 => erosion::<Map<Wk, Tv, HeapFold>>(ctx),
        1 => stray::<Map<Wk, Tv, Evil>, Tv>(ctx),
    );
}
