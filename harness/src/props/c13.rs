//! C13: operations take logarithmic work and the tree stays balanced.
//! Counters inside comparison, clone and aggregate code are read around every call; leaf depths
//! come from a visitor; CPU time per item is compared between a small and a large collection.
use super::*;
use crate::core::{asked_bytes, progress, Tier};
use crate::dict::{shape, Map, Set, Tree};
use crate::one_of;
use crate::types::*;
use std::cmp::Ordering;
use std::hint::black_box;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::SearchAugmentation;
use sweep_bptree::tree::Cursor;
use sweep_bptree::{BPlusTreeMap, BPlusTreeSet};

/// counted key
#[derive(Debug)]
pub struct Ck(u64);
impl Clone for Ck {
    fn clone(&self) -> Self {
        CLONES.with(|c| c.set(c.get() + 1));
        Ck(self.0)
    }
}
impl Ord for Ck {
    fn cmp(&self, o: &Self) -> Ordering {
        CMP.with(|c| c.set(c.get() + 1));
        self.0.cmp(&o.0)
    }
}
impl PartialOrd for Ck {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl PartialEq for Ck {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Ck {}
impl KeyT for Ck {
    type Q = Ck;
    const NAME: &'static str = "counted";
    fn mk(o: u64) -> Self {
        Ck(o)
    }
    fn o(&self) -> u64 {
        self.0
    }
    fn with_q<R>(o: u64, f: impl FnOnce(&Ck) -> R) -> R {
        f(&Ck(o))
    }
}

/// largest depth the number of entries justifies: no node but the root may be less than an
/// eighth full (the crate merges at a quarter)
fn depth_lim(n: usize, cap: usize) -> u64 {
    let b = (cap / 8).max(2) as u128;
    let (mut d, mut p) = (1, 1u128);
    while p < n as u128 {
        p *= b;
        d += 1;
    }
    d
}
fn within(ctx: &mut Ctx, what: &str, n: usize) {
    let (cmp, clones, evals, items) = work();
    let loc = LOCATES.with(|c| c.get());
    let d = depth_lim(n.max(2), ctx.n) + 1;
    let per = ctx.n as u64 + 8;
    ctx.add("calls_metered");
    ctx.st.add("comparisons", cmp);
    ctx.st.max("comparisons_in_a_call", cmp);
    ctx.st.max("clones_in_a_call", clones);
    ctx.st.max("aggregate_evaluations_in_a_call", evals);
    ctx.st.max("locate_calls_in_a_call", loc);
    for (name, got, lim) in [
        ("key comparisons", cmp, 2 * per * d),
        ("key clones", clones, 4 * d + 4),
        ("aggregate evaluations", evals, 8 * d + 8),
        ("entries or children fed to aggregate evaluations", items, (8 * d + 8) * per),
        ("search steps", loc, 2 * d + 2),
    ] {
        check!(
            got <= lim,
            "{what} with {n} entries took {got} {name}; at most {lim} are proportional to the logarithmic depth ({d})"
        );
    }
}
fn balanced<D, K, V, A>(ctx: &mut Ctx, h: &Hist<D, K, V, A>)
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: AggT<K, V>,
{
    let s = shape(&h.d);
    let depth = s.depth() as u64;
    let n = h.m.len();
    ctx.add("shapes_walked");
    ctx.st.shape(s.hash());
    ctx.st.max("deepest_tree", depth);
    for l in s.leaves() {
        check!(
            l.level as u64 + 1 == depth,
            "a leaf sits at depth {} while another is at depth {depth} ({n} entries)",
            l.level + 1
        );
    }
    let lim = depth_lim(n, ctx.n);
    check!(depth <= lim, "all leaves are at depth {depth} with only {n} entries (logarithmic bound {lim})");
}

fn reads<D, K, A>(ctx: &mut Ctx, h: &mut Hist<D, K, u64, A>)
where
    D: Dict<K, u64, A>,
    K: KeyT,
    A: AggT<K, u64> + SearchAugmentation<K, u64, Query = Find>,
{
    let n = h.m.len();
    let o = h.probe_key(ctx);
    let k = K::mk(o);
    ev("read", o, n as u64);
    reset_work();
    black_box(h.d.get::<K>(&k));
    within(ctx, "a lookup", n);
    reset_work();
    black_box(h.d.get_mut::<K>(&k).is_some());
    within(ctx, "a mutable lookup", n);
    let i = ctx.rng.below(n as u64 + 1);
    reset_work();
    black_box(h.d.find(Find::Nth(i)).is_some());
    within(ctx, "a positional search", n);
    reset_work();
    black_box(h.d.find_mut(Find::NthBack(i)).is_some());
    within(ctx, "a mutable positional search", n);
    reset_work();
    black_box((h.d.first().is_some(), h.d.last().is_some()));
    within(ctx, "first() and last()", n);
    reset_work();
    {
        let mut it = h.d.iter();
        black_box((it.next().is_some(), it.next_back().is_some()));
    }
    within(ctx, "starting an iteration", n);
    if n > 0 && ctx.rng.chance(1, 3) {
        let i = ctx.rng.below(n as u64);
        reset_work();
        let x = base_op(true, || h.d.take(Find::Nth(i)));
        within(ctx, "a positional removal", n);
        if let Some((k, _)) = x {
            h.m.remove(k.o());
        }
    }
    if ctx.rng.chance(1, n as u64 / 8 + 4) {
        reset_work();
        let n = h.m.len();
        if h.d.iter().take(n + 1).count() != n {
            foreign("wrong number of entries".into());
        }
        let (cmp, clones, ..) = work();
        ctx.add("full_traversals");
        check!(cmp <= n as u64 + 8 && clones <= n as u64 + 8, "iterating over {n} entries took {cmp} key comparisons and {clones} clones");
    }
}

fn history<D, K, A>(ctx: &mut Ctx, more: fn(&mut Ctx, &Hist<D, K, u64, A>))
where
    D: Dict<K, u64, A>,
    K: KeyT,
    A: AggT<K, u64> + SearchAugmentation<K, u64, Query = Find>,
{
    let mut target = ctx.size();
    if !ctx.miri() && ctx.rng.chance(1, 12) {
        target = ctx.rng.range(5_000, 25_000) as usize;
    }
    let steps = ctx.steps(500 + 3 * target);
    let mut h: Hist<D, K, u64, A> = if ctx.rng.chance(1, 4) {
        let p = pattern(&mut ctx.rng, target, K::MAXO);
        let e: Vec<(u64, Pay)> = p.iter().map(|o| (*o, (*o, 0))).collect();
        let d = D::bulk(e.iter().map(|x| (K::mk(x.0), x.0)).collect());
        ctx.add("bulk_built");
        Hist::with(ctx, d, Model { e }, target)
    } else {
        Hist::new(ctx, target)
    };
    h.foreign = true;
    balanced(ctx, &h);
    for i in 0..steps {
        if ctx.late() {
            break;
        }
        let n = h.m.len();
        reset_work();
        let (a, r) = h.step(ctx);
        within(ctx, if matches!(a, Act::Ins(_)) { "an insertion" } else { "a removal" }, n);
        if let Err(e) = r {
            balanced(ctx, &h);
            foreign(e);
        }
        if i % 3 == 0 {
            reads(ctx, &mut h);
        }
        if i % 5 == 0 {
            more(ctx, &h);
        }
        if due(ctx, h.m.len(), 3) {
            balanced(ctx, &h);
        }
    }
    balanced(ctx, &h);
    h.describe(ctx, "work in", coll_name(D::TREE));
    // thinning to nothing: the depth follows
    let mut next = h.m.len() / 2;
    let style = ctx.rng.below(3);
    while !h.m.is_empty() && !ctx.late() {
        let n = h.m.len();
        let i = match style {
            0 => 0,
            1 => n - 1,
            _ => ctx.rng.idx(n),
        };
        let o = h.m.at(i);
        reset_work();
        let r = h.del(ctx, o);
        within(ctx, "a removal", n);
        other(r);
        if h.m.len() <= next {
            balanced(ctx, &h);
            next /= 2;
        }
    }
    if !ctx.late() {
        balanced(ctx, &h);
        ctx.add("thinned_to_nothing");
    }
}

fn cursor_work<A: AggT<Ck, u64>>(ctx: &mut Ctx, h: &Hist<Tree<Ck, u64, A>, Ck, u64, A>) {
    let (t, n) = (&h.d, h.m.len());
    let o = h.probe_key(ctx);
    let k = Ck::mk(o);
    reset_work();
    let c = t.get_cursor(&k).map(|x| x.0);
    within(ctx, "get_cursor", n);
    reset_work();
    let f = Cursor::first(t).map(|x| x.0);
    within(ctx, "Cursor::first", n);
    reset_work();
    let l = Cursor::last(t).map(|x| x.0);
    within(ctx, "Cursor::last", n);
    for c in [c, f, l].into_iter().flatten() {
        let mut c = c;
        for _ in 0..ctx.rng.below(6) {
            reset_work();
            black_box(c.value(t));
            within(ctx, "a cursor's value", n);
            reset_work();
            let x = if ctx.rng.chance(1, 2) { c.next(t) } else { c.prev(t) };
            within(ctx, "a cursor step", n);
            match x {
                Some(x) => c = x,
                None => break,
            }
        }
    }
    if ctx.rng.chance(1, n as u64 / 4 + 4) {
        ctx.add("full_traversals");
        reset_work();
        let mut c = Cursor::first(t).map(|x| x.0);
        let mut s = 0u64;
        while let Some(x) = c {
            s += 1;
            progress();
            if s > n as u64 {
                foreign("a cursor walk does not end".into());
            }
            c = x.next(t);
        }
        let (cmp, clones, ..) = work();
        let lim = 2 * (ctx.n as u64 + 8);
        check!(cmp <= (s + 2) * lim, "walking {n} entries by cursor took {cmp} key comparisons");
        check!(clones <= 4 * (s + 2), "walking {n} entries by cursor took {clones} key clones");
    }
}

fn ranks<D: Dict<Ck, u64, Count>>(ctx: &mut Ctx) {
    let mut target = ctx.size();
    if !ctx.miri() && ctx.rng.chance(1, 8) {
        target = ctx.rng.range(5_000, 25_000) as usize;
    }
    let steps = ctx.steps(300 + target);
    let mut h: Hist<D, Ck, u64, Count> = Hist::new(ctx, target);
    h.foreign = true;
    for _ in 0..steps {
        if ctx.late() {
            break;
        }
        let n = h.m.len();
        reset_work();
        let (_, r) = h.step(ctx);
        within(ctx, "an update", n);
        other(r);
        let n = h.m.len();
        let k = Ck::mk(h.probe_key(ctx));
        reset_work();
        black_box(h.d.rank(&k).is_ok());
        within(ctx, "a rank query", n);
        reset_work();
        black_box(h.d.find(ctx.rng.idx(n + 1)).is_some());
        within(ctx, "a positional query", n);
        if due(ctx, n, 3) {
            balanced(ctx, &h);
        }
    }
    h.describe(ctx, "work of ranks in", coll_name(D::TREE));
}

/// sets: membership, updates, starting an iteration, and the union of two of them
fn sets(ctx: &mut Ctx) {
    let target = if !ctx.miri() && ctx.rng.chance(1, 8) { ctx.rng.range(5_000, 25_000) as usize } else { ctx.size() };
    let steps = ctx.steps(300 + 2 * target);
    let mut h: Hist<Set<Ck>, Ck, (), ()> = Hist::new(ctx, target);
    h.foreign = true;
    let mut other_set: Set<Ck> = Set::new();
    for i in 0..steps {
        if ctx.late() {
            break;
        }
        let n = h.m.len();
        reset_work();
        let (a, r) = h.step(ctx);
        within(ctx, if matches!(a, Act::Ins(_)) { "an insertion into a set" } else { "a removal from a set" }, n);
        other(r);
        let n = h.m.len();
        let k = Ck::mk(h.probe_key(ctx));
        reset_work();
        black_box(h.d.contains(&k));
        within(ctx, "a membership test", n);
        if i % 4 == 0 {
            reset_work();
            black_box((Set::first(&h.d).is_some(), Set::last(&h.d).is_some()));
            within(ctx, "first() and last() of a set", n);
            reset_work();
            {
                let mut it = Set::iter(&h.d);
                black_box((it.next().is_some(), it.next_back().is_some(), it.len()));
            }
            within(ctx, "starting an iteration of a set", n);
        }
        if i % 3 == 0 {
            let k = Ck::mk(h.probe_key(ctx));
            other_set.insert(k);
        }
        if ctx.rng.chance(1, n as u64 / 4 + 8) {
            let (x, y) = if ctx.rng.chance(1, 2) { (&h.d, &other_set) } else { (&other_set, &h.d) };
            let all = (Set::len(x) + Set::len(y)) as u64;
            reset_work();
            {
                let mut u = x.union(y);
                black_box((u.next().is_some(), u.size_hint()));
            }
            within(ctx, "starting a union", all as usize);
            reset_work();
            let c = x.union(y).take(all as usize + 1).count() as u64;
            let (cmp, clones, _, _) = work();
            ctx.add("unions_metered");
            check!(
                cmp <= all + 8 && clones <= all + 8,
                "a union of {all} keys in all, {c} distinct, took {cmp} key comparisons and {clones} clones"
            );
        }
    }
    h.describe(ctx, "work in", "BPlusTreeSet");
}

// ---------------------------------------------------------------- CPU time
fn cpu_ns() -> u64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.n as u64
}
type T = Tree<u64, u64, Count>;
struct Sized_ {
    t: T,
    map: BPlusTreeMap<u64, u64>,
    set: BPlusTreeSet<u64>,
    /// a few keys around those of `set`
    few: BPlusTreeSet<u64>,
    n: u64,
    /// beyond every key used otherwise
    top: u64,
}
/// name, calls made per run at this size, body
type Op = (&'static str, fn(&mut Sized_, &mut Rng) -> u64);
const OPS: &[Op] = &[
    ("a lookup", |s, r| {
        for _ in 0..200 {
            black_box(s.t.get(&(2 * r.below(s.n))));
        }
        200
    }),
    ("a lookup of an absent key", |s, r| {
        for _ in 0..200 {
            black_box(s.t.get(&(2 * r.below(s.n) + 1)));
        }
        200
    }),
    ("a mutable lookup", |s, r| {
        for _ in 0..100 {
            black_box(s.t.get_mut(&(2 * r.below(s.n))).is_some());
            black_box(s.t.get_mut_by_augmentation(r.below(s.n) as usize).is_some());
        }
        200
    }),
    ("first() and last()", |s, _| {
        for _ in 0..200 {
            black_box((s.t.first(), s.t.last()));
        }
        200
    }),
    ("len()", |s, _| {
        for _ in 0..200 {
            black_box(black_box(&s.t).len());
        }
        200
    }),
    ("insertion and removal of a new key", |s, r| {
        for _ in 0..200 {
            let k = 2 * r.below(s.n) + 1;
            s.t.insert(k, 1);
            s.t.remove(&k);
        }
        200
    }),
    ("insertion and removal at the front", |s, _| {
        for _ in 0..200 {
            let f = s.t.remove(&0);
            black_box(f);
            s.t.insert(0, 1);
        }
        200
    }),
    ("insertion and removal at the back", |s, _| {
        for i in 0..200 {
            s.t.insert(2 * s.n + 10 + i, 1);
        }
        for i in 0..200 {
            s.t.remove(&(2 * s.n + 10 + i));
        }
        200
    }),
    ("replacing a value", |s, r| {
        for _ in 0..200 {
            s.t.insert(2 * r.below(s.n), 7);
        }
        200
    }),
    ("a positional query", |s, r| {
        for _ in 0..200 {
            black_box(s.t.get_by_augmentation(r.below(s.n) as usize));
        }
        200
    }),
    ("a rank query", |s, r| {
        for _ in 0..200 {
            black_box(s.t.rank_by_augmentation(&r.below(2 * s.n)).is_ok());
        }
        200
    }),
    ("positional removal and reinsertion", |s, r| {
        for _ in 0..100 {
            if let Some((k, v)) = s.t.remove_by_augmentation(r.below(s.n) as usize) {
                s.t.insert(k, v);
            }
        }
        100
    }),
    ("a cursor step", |s, r| {
        let Some((mut c, _)) = s.t.get_cursor(&(2 * r.below(s.n))) else { return 1 };
        let up = r.chance(1, 2);
        let mut n = 1;
        while let Some(x) = if up { c.next(&s.t) } else { c.prev(&s.t) } {
            c = x;
            n += 1;
            if n > 300 {
                break;
            }
        }
        n
    }),
    ("Cursor::first and Cursor::last", |s, _| {
        for _ in 0..200 {
            black_box((Cursor::first(&s.t).is_some(), Cursor::last(&s.t).is_some()));
        }
        200
    }),
    ("starting an iteration from both ends", |s, _| {
        for _ in 0..200 {
            let mut i = s.t.iter();
            black_box((i.next(), i.next_back()));
        }
        200
    }),
    ("one item of a full iteration", |s, _| s.t.iter().map(|x| black_box(*x.0)).count() as u64 + 1),
    ("one item of a full reverse iteration", |s, _| s.t.iter().rev().map(|x| black_box(*x.0)).count() as u64 + 1),
    ("one item of a full cursor walk", |s, _| {
        let mut c = s.t.cursor_first();
        let mut n = 1;
        while let Some(x) = c {
            n += 1;
            if n % 64 == 0 {
                progress();
            }
            c = x.next(&s.t);
        }
        n
    }),
    ("one item of a full cursor walk down", |s, _| {
        let mut c = Cursor::last(&s.t).map(|x| x.0);
        let mut n = 1;
        while let Some(x) = c {
            n += 1;
            if n % 64 == 0 {
                progress();
            }
            c = x.prev(&s.t);
        }
        n
    }),
    ("one item of cloning and consuming", |s, _| s.t.clone().into_iter().map(|x| black_box(x.0)).count() as u64 + 1),
    ("one item of cloning and consuming from the back", |s, _| s.t.clone().into_iter().rev().map(|x| black_box(x.0)).count() as u64 + 1),
    ("one item of cloning and dropping", |s, _| {
        drop(s.t.clone());
        s.n
    }),
];
/// the same of the map and the set on top of the tree
const WRAPPED: &[Op] = &[
    ("a read of a map", |s, r| {
        for _ in 0..100 {
            let k = r.below(2 * s.n);
            black_box((s.map.get(&k).is_some(), s.map.get_mut(&k).is_some(), s.map.len(), s.map.is_empty()));
        }
        200
    }),
    ("starting an iteration of a map from both ends", |s, _| {
        for _ in 0..200 {
            let mut i = s.map.iter();
            black_box((i.next(), i.next_back(), i.len()));
        }
        200
    }),
    ("insertion and removal of a map entry", |s, r| {
        for _ in 0..200 {
            let k = 2 * r.below(s.n) + 1;
            s.map.insert(k, 1);
            s.map.remove(&k);
        }
        200
    }),
    ("a membership test", |s, r| {
        for _ in 0..200 {
            black_box((s.set.contains(&r.below(2 * s.n)), s.set.len()));
        }
        200
    }),
    ("first() and last() of a set", |s, _| {
        for _ in 0..200 {
            black_box((s.set.first(), s.set.last()));
        }
        200
    }),
    ("insertion and removal of a set key", |s, r| {
        for _ in 0..200 {
            let k = 2 * r.below(s.n) + 1;
            s.set.insert(k);
            s.set.remove(&k);
        }
        200
    }),
    ("starting a union", |s, _| {
        for i in 0..200 {
            let mut u = if i % 2 == 0 { s.set.union(&s.few) } else { s.few.union(&s.set) };
            black_box((u.next(), u.size_hint()));
        }
        200
    }),
    ("one item of a full union", |s, _| s.few.union(&s.set).map(|x| black_box(*x)).count() as u64 + 1),
    ("one item of a full iteration of a set", |s, _| s.set.iter().map(|x| black_box(*x)).count() as u64 + 1),
];
/// the slowest single call of its kind, in CPU nanoseconds. A run goes over one place in the key
/// space, emptying leaves (merges) and filling them again (splits), so that work done only
/// when the structure changes is seen call by call and not averaged away.
const SLOWEST: &[(&str, u64)] = &[("front", 0), ("middle", 1), ("back", 2), ("end, growing", 3)];
fn slowest(s: &mut Sized_, place: u64, rng: &mut Rng) -> [u64; 3] {
    let w = 300;
    let asked = asked_bytes();
    let from = match place {
        0 => 0,
        1 => rng.below(s.n - w),
        _ => s.n - w,
    };
    let (mut del, mut ins) = (0, 0);
    let time = |m: &mut u64, f: &mut dyn FnMut()| {
        let a = cpu_ns();
        f();
        *m = (*m).max(cpu_ns() - a);
    };
    if place == 3 {
        for _ in 0..w {
            let k = s.top;
            s.top += 2;
            time(&mut ins, &mut || {
                black_box(s.t.insert(k, k));
            });
        }
        progress();
        return [del, ins, (asked_bytes() - asked) / w];
    }
    let down = rng.chance(1, 2);
    for ops in 0..2 {
        for i in 0..w {
            let k = 2 * (from + if down { w - 1 - i } else { i });
            match ops {
                0 => time(&mut del, &mut || {
                    black_box(s.t.remove(&k));
                }),
                _ => time(&mut ins, &mut || {
                    black_box(s.t.insert(k, k));
                }),
            }
        }
        progress();
    }
    [del, ins, (asked_bytes() - asked) / w]
}
fn per_call(s: &mut Sized_, op: &Op, rng: &mut Rng, runs: usize) -> (f64, f64) {
    let (mut best, mut bytes) = (f64::MAX, f64::MAX);
    for _ in 0..runs {
        progress();
        let (a, m) = (cpu_ns(), asked_bytes());
        let c = op.1(s, rng);
        let d = cpu_ns() - a;
        best = best.min(d as f64 / c.max(1) as f64);
        bytes = bytes.min((asked_bytes() - m) as f64 / c.max(1) as f64);
    }
    (best, bytes)
}
fn growth(ctx: &mut Ctx) {
    const RATIO: f64 = 50.0;
    const SLOW_RATIO: f64 = 15.0;
    const SLOW_FLOOR: [u64; 3] = [1_000, 1_000, 200];
    let wrapped = ctx.rng.chance(1, 4);
    let mk = |n: u64, rng: &mut Rng, by_insertion: bool| {
        let mut s = Sized_ {
            t: T::create(),
            map: BPlusTreeMap::new(),
            set: BPlusTreeSet::new(),
            few: BPlusTreeSet::new(),
            n,
            top: 4 * n,
        };
        if wrapped {
            s.map = (0..n).map(|i| (2 * i, i)).collect();
            s.set = (0..n).map(|i| 2 * i).collect();
            s.few = (0..500).map(|i| if i % 2 == 0 { i } else { 2 * n + i }).collect();
            return s;
        }
        if by_insertion {
            for i in 0..n {
                s.t.insert(2 * i, i);
                if i % 256 == 0 {
                    progress();
                }
            }
        } else {
            s.t = T::bulk((0..n).map(|i| (2 * i, i)).collect());
        }
        for _ in 0..n / 10 {
            let k = 2 * rng.below(n);
            s.t.remove(&k);
            progress();
            s.t.insert(k, k);
        }
        s
    };
    let by = ctx.rng.chance(1, 2);
    let (mut r1, mut r2) = (ctx.rng.fork(), ctx.rng.fork());
    let mut a = mk(1500, &mut r1, by);
    let large = ctx.rng.chance(1, 3);
    let n = if large { ctx.rng.range(1_200_000, 1_400_000) } else { ctx.rng.range(180_000, 220_000) };
    let mut b = mk(n, &mut r2, by && !large);
    for (place, which) in if wrapped { &[][..] } else { SLOWEST } {
        let mut tries = Vec::new();
        let mut worst = 0.0;
        for t in 0..8 {
            let mut best = |s: &mut Sized_, runs: usize| {
                let mut m = [u64::MAX; 3];
                for _ in 0..runs {
                    let x = slowest(s, *which, &mut ctx.rng);
                    m = std::array::from_fn(|i| m[i].min(x[i]));
                }
                std::array::from_fn::<f64, 3, _>(|i| m[i].max(SLOW_FLOOR[i]) as f64)
            };
            let (x, y) = (best(&mut a, 5), best(&mut b, 5 + t));
            tries.push((x, y));
            ctx.add("slowest_call_measurements");
            worst = (0..3).map(|i| y[i] / x[i]).fold(0.0, f64::max);
            if worst <= SLOW_RATIO {
                break;
            }
        }
        ctx.st.max("largest_slowest_call_growth_percent", (worst * 100.0) as u64);
        if worst > SLOW_RATIO {
            crate::fail!(
                "the slowest removal and insertion of 300 at the {place} in nanoseconds, and the bytes asked for per call, with {} and with {} entries: {worst:.0} times more in every one of {} measurements {tries:?}",
                a.n, b.n, tries.len()
            );
        }
    }
    // 130 or 870 times as many entries
    let ratio = if large { 3.0 * RATIO } else { RATIO };
    for op in if wrapped { WRAPPED } else { OPS } {
        if large && op.0.starts_with("one item") {
            continue;
        }
        ev("time", b.n, 0);
        let mut tries = Vec::new();
        for t in 0..6 {
            let mut rng = ctx.rng.fork();
            // at least 20 ns a call, so that the resolution of the clock plays no part
            let (x, p) = per_call(&mut a, op, &mut rng, 5);
            let x = x.max(20.0);
            let (y, q) = per_call(&mut b, op, &mut rng, 3 + t);
            if q > SLOW_RATIO * p.max(200.0) {
                crate::fail!("{} asks for {q:.0} bytes of memory with {} entries and {p:.0} with {}", op.0, b.n, a.n);
            }
            tries.push((x, y));
            ctx.add("growth_measurements");
            if y <= ratio * x {
                break;
            }
        }
        let (x, y) = *tries.last().unwrap();
        ctx.st.max("largest_growth_percent", (y / x * 100.0) as u64);
        if y > ratio * x {
            crate::fail!(
                "{} costs {y:.0} ns with {} entries and {x:.0} ns with {}: {:.0} times more, in every one of {} measurements {tries:?}",
                op.0, b.n, a.n, y / x, tries.len()
            );
        }
    }
    ctx.add(if wrapped { "wrapper_growth_comparisons" } else { "growth_comparisons" });
    ctx.desc.clear();
    ctx.desc.push_str(&format!("CPU time of {} calls at {} and {} entries", if wrapped { WRAPPED.len() } else { OPS.len() }, a.n, b.n));
    ctx.note(b.n);
    ctx.nontrivial = true;
}

fn giant<D, A>(ctx: &mut Ctx)
where
    D: Dict<Ck, u64, A>,
    A: AggT<Ck, u64> + SearchAugmentation<Ck, u64, Query = Find>,
{
    Hist::<D, Ck, u64, A>::giant_session(ctx, true, "work in", |ctx, h, _| {
        balanced(ctx, h);
        for _ in 0..100 {
            reads(ctx, h);
            let n = h.m.len();
            let o = h.probe_key(ctx);
            reset_work();
            let r = h.ins(ctx, o);
            within(ctx, "an insertion", n);
            other(r);
            let o = h.probe_key(ctx);
            reset_work();
            let r = h.del(ctx, o);
            within(ctx, "a removal", n + 1);
            other(r);
        }
    });
}

pub fn episode(ctx: &mut Ctx) {
    if ctx.giant() {
        return one_of!(ctx,
            1 => giant::<Tree<Ck, u64, Fold>, Fold>(ctx),
            1 => giant::<Map<Ck, u64, Fold>, Fold>(ctx),
        );
    }
    if ctx.tier == Tier::Native && ctx.variant != "slow" && ctx.rng.chance(1, 30) {
        return growth(ctx);
    }
    one_of!(ctx,
        3 => history::<Tree<Ck, u64, Fold>, Ck, Fold>(ctx, cursor_work::<Fold>),
        2 => history::<Map<Ck, u64, Fold>, Ck, Fold>(ctx, |_, _| ()),
        1 => ranks::<Tree<Ck, u64, Count>>(ctx),
        1 => ranks::<Map<Ck, u64, Count>>(ctx),
        1 => sets(ctx),
    );
}
