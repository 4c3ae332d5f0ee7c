//! C14: a panic in key comparison or cloning leaves the collection intact.
//! Every user call an operation makes is made to panic once, in turn; after each panic the
//! contents, the aggregate and the ledger are compared with the state before the call.
use super::*;
use crate::core::{quietly, Injected};
use crate::dict::{Map, Set, Tree};
use crate::one_of;
use crate::types::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::RankAugmentation;
use sweep_bptree::tree::Cursor;

/// user aggregate with a rank whose leaf part compares keys
#[derive(Clone, Debug, Default)]
pub struct Cnt(u64);
impl<V> Augmentation<Tk, V> for Cnt {
    fn from_inner(_: &[Tk], a: &[Self]) -> Self {
        Cnt(a.iter().map(|x| x.0).sum())
    }
    fn from_leaf(k: &[Tk], _: &[V]) -> Self {
        Cnt(k.len() as u64)
    }
}
impl<V> RankAugmentation<Tk, V> for Cnt {
    type Rank = u64;
    fn initial_value() -> u64 {
        0
    }
    fn fold_inner(_: &Tk, r: u64, a: &[Self]) -> u64 {
        r + a.iter().map(|x| x.0).sum::<u64>()
    }
    fn fold_leaf(_: &Tk, r: u64, at: Result<usize, usize>, _: &[Tk]) -> Result<u64, u64> {
        at.map(|i| r + i as u64).map_err(|i| r + i as u64)
    }
}
impl<V: ValT> AggT<Tk, V> for Cnt {
    const NAME: &'static str = "count";
    fn sum(&self) -> Option<Sum> {
        None
    }
}

type Hs<D, V, A> = Hist<D, Tk, V, A>;

struct Faulty<D, V, A> {
    h: Hs<D, V, A>,
    /// the same history without a single panic
    twin: Hs<D, V, A>,
    /// left behind by interrupted clones and bulk loads
    lost_k: i64,
    lost_v: i64,
    /// entries and separators of the twin do not count
    panics: u64,
}

impl<D, V, A> Faulty<D, V, A>
where
    D: Dict<Tk, V, A>,
    V: ValT,
    A: AggT<Tk, V>,
{
    /// the faulted collection differs from what it should be: is it because of the panics?
    fn blame(&self, ctx: &mut Ctx, e: String) -> ! {
        if self.panics == 0 {
            foreign(e);
        }
        if let Err(t) = self.twin.contents_ok(ctx, true).and_then(|_| self.twin.lookups_ok(ctx, 1)) {
            foreign(format!("also without a panic: {t}"));
        }
        crate::fail!("after {} injected panics: {e}", self.panics)
    }
    fn intact(&mut self, ctx: &mut Ctx, what: &str, k: i64, live0: (i64, i64), may_leak: bool, full: bool) {
        let (lk, lv) = (live(Class::Key), live(Class::Val));
        if may_leak {
            check!(lk >= live0.0 && lv >= live0.1, "{what} interrupted at user call {k} dropped keys or values of the collection: {lk} keys alive instead of {}, {lv} values instead of {}", live0.0, live0.1);
            self.lost_k += lk - live0.0;
            self.lost_v += lv - live0.1;
            ctx.st.add("objects_of_half_built_copies", (lk - live0.0 + lv - live0.1) as u64);
        } else {
            check!(
                (lk, lv) == live0,
                "{what} interrupted by a panic at user call {k}: {lk} keys and {lv} values are alive, before the call {} and {} ({} entries)",
                live0.0,
                live0.1,
                self.h.m.len()
            );
        }
        if let Err(e) = self.h.len_ok() {
            self.blame(ctx, format!("{what} interrupted at user call {k}: {e}"));
        }
        if full {
            self.audit(ctx, &format!("{what} interrupted at user call {k}"));
        }
    }
    fn audit(&mut self, ctx: &mut Ctx, what: &str) {
        let r = self
            .h
            .contents_ok(ctx, true)
            .and_then(|_| self.h.lookups_ok(ctx, 3))
            .and_then(|_| self.h.ends_ok(ctx));
        if let Err(e) = r {
            self.blame(ctx, format!("{what}: {e}"));
        }
        if let (Some(a), Some(b)) = (self.h.d.root_agg().sum(), self.twin.d.root_agg().sum()) {
            let all = |m: &Model<Pay>| m.e.iter().fold(Sum::default(), |s, e| s.cat(Sum::one(e.0, e.1 .0)));
            let w = all(&self.h.m);
            if a != w {
                if b != all(&self.twin.m) {
                    foreign("wrong aggregate also without a panic".into());
                }
                crate::fail!("{what}: the aggregate is {a:?}, recomputed it is {w:?}");
            }
        }
    }
    /// an operation that changes no entry
    fn each<R: PartialEq + std::fmt::Debug>(
        &mut self,
        ctx: &mut Ctx,
        what: &'static str,
        o: u64,
        may_leak: bool,
        want: R,
        op: impl Fn(&mut D) -> R,
    ) {
        self.op(ctx, what, o, may_leak, want, op, |_| {})
    }
    /// one operation with a panic at each of its user calls, then undisturbed
    fn op<R: PartialEq + std::fmt::Debug>(
        &mut self,
        ctx: &mut Ctx,
        what: &'static str,
        o: u64,
        may_leak: bool,
        want: R,
        op: impl Fn(&mut D) -> R,
        // what the operation does to the entries
        upd: impl Fn(&mut Model<Pay>),
    ) {
        ev(what, o, self.h.m.len() as u64);
        ctx.add("operations");
        let t = base_op(true, || op(&mut self.twin.d));
        if t != want {
            foreign(format!("{what} of #{o} gave {t:?} instead of {want:?} without any panic"));
        }
        // from here on the twin is one operation ahead of the faulted collection
        upd(&mut self.twin.m);
        let kinds = ctx.rng.pick(&[3, 3, 1, 2]);
        let full_every = if self.h.m.len() < 40 * ctx.n { 1 } else { 7 };
        let mut k = 0;
        // the enumeration may begin later in long operations (clone, bulk load)
        let mut stride = 1;
        loop {
            let live0 = (live(Class::Key), live(Class::Val));
            arm(k, kinds);
            let r = quietly(|| catch_unwind(AssertUnwindSafe(|| op(&mut self.h.d))));
            let calls = disarm();
            match r {
                Ok(g) => {
                    ctx.st.max("user_calls_in_an_operation", calls);
                    if g != want {
                        self.blame(ctx, format!("{what} of #{o} gave {g:?} instead of {want:?}"));
                    }
                    break;
                }
                Err(p) => {
                    if !p.is::<Injected>() {
                        let m = p
                            .downcast_ref::<String>()
                            .cloned()
                            .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        self.blame(ctx, format!("{what} of #{o} panicked by itself: {m}"));
                    }
                    self.panics += 1;
                    ctx.add("injected_panics");
                    ctx.add(match what {
                        "insert" => "panics_in_insert",
                        "replace" => "panics_in_replacement",
                        "remove" => "panics_in_remove",
                        "clone" | "clone_from" => "panics_in_clone",
                        "bulk load" => "panics_in_bulk_load",
                        "cursor" | "cursor step" => "panics_in_cursor_calls",
                        _ => "panics_in_reads",
                    });
                    let full = k % full_every == 0 || ctx.rng.chance(1, 5);
                    self.intact(ctx, what, k, live0, may_leak, full);
                }
            }
            if k >= 40 {
                stride = 1 + ctx.rng.below(1 + k as u64 / 8) as i64;
            }
            k += stride;
            if ctx.miri() && k > 6 {
                k += ctx.rng.below(20) as i64;
            }
        }
        upd(&mut self.h.m);
    }
    fn ins(&mut self, ctx: &mut Ctx, o: u64) {
        self.h.vc += 1;
        self.h.tc += 1;
        let (v, tag) = (V::norm(mix(self.h.vc, 3) >> 16), self.h.tc);
        let want = self.h.m.get(o).map(|p| p.0);
        let what = if want.is_some() { "replace" } else { "insert" };
        // the model keeps the state before the call until the call succeeds
        self.op(
            ctx,
            what,
            o,
            false,
            want,
            |d| d.insert(Tk::mk_tag(o, tag), V::mk(v)).map(|v| v.get()),
            |m| match m.get_mut(o) {
                Some(p) => p.0 = v,
                None => {
                    m.insert(o, (v, tag));
                }
            },
        );
        self.h.peak = self.h.peak.max(self.h.m.len());
    }
    fn del(&mut self, ctx: &mut Ctx, o: u64) {
        let want = self.h.m.get(o).map(|p| p.0);
        self.op(
            ctx,
            "remove",
            o,
            false,
            want,
            |d| {
                let k = Tk::mk(o);
                d.remove::<Tk>(&k).map(|v| v.get())
            },
            |m| {
                m.remove(o);
            },
        );
    }
    fn reads(&mut self, ctx: &mut Ctx) {
        let o = self.h.probe_key(ctx);
        let want = self.h.m.get(o).map(|p| p.0);
        self.each(ctx, "get", o, false, want, |d| {
            let k = Tk::mk(o);
            d.get::<Tk>(&k).map(|v| v.get())
        });
        self.each(ctx, "get_mut", o, false, want, |d| {
            let k = Tk::mk(o);
            d.get_mut::<Tk>(&k).map(|v| v.get())
        });
    }
    fn bulk(&mut self, ctx: &mut Ctx) {
        // an interrupted bulk load cannot touch the collection, but must not break its items
        let n = ctx.rng.below(4 * ctx.n as u64 + 2) as usize;
        let mut items = pattern(&mut ctx.rng, n, 1 << 30);
        if !D::TREE {
            // unsorted, with duplicates
            for i in 0..items.len() / 3 {
                let j = ctx.rng.idx(items.len());
                items.swap(i, j);
                items.push(items[j]);
            }
        }
        let mut keys = items.clone();
        keys.sort();
        keys.dedup();
        self.each(ctx, "bulk load", n as u64, true, keys, |_| {
            let d = D::bulk(items.iter().map(|o| (Tk::mk(*o), V::mk(*o))).collect());
            let v: Vec<u64> = d.iter().map(|x| x.0.o()).collect();
            v
        });
    }
}

type More<D, V, A> = fn(&mut Ctx, &mut Faulty<D, V, A>);

fn start<D, V, A>(ctx: &mut Ctx) -> Faulty<D, V, A>
where
    D: Dict<Tk, V, A>,
    V: ValT,
    A: AggT<Tk, V>,
{
    let target = match ctx.rng.below(5) {
        _ if ctx.miri() => ctx.rng.range(2, 5 * ctx.n as u64),
        0 => ctx.rng.range(1, 2 * ctx.n as u64),
        1 | 2 => ctx.rng.range(ctx.n as u64, 8 * ctx.n as u64),
        3 => ctx.rng.range(8 * ctx.n as u64, 40 * ctx.n as u64),
        _ => ctx.rng.range(20 * ctx.n as u64, if ctx.n > 16 { 80 } else { 160 } * ctx.n as u64),
    } as usize;
    let mut h: Hs<D, V, A> = Hist::new(ctx, target);
    h.foreign = true;
    let mut twin: Hs<D, V, A> = Hist::new(ctx, target);
    twin.foreign = true;
    // the same undisturbed prefix on both
    let extra = ctx.rng.idx(2 * target + 10);
    let mut i = 0;
    while i < extra || (h.m.len() < target * 3 / 4 && i < 12 * target + 50) {
        i += 1;
        let a = h.pick(ctx);
        let r = h.apply(ctx, a).and_then(|_| {
            twin.vc = h.vc - matches!(a, Act::Ins(_)) as u64;
            twin.tc = h.tc - matches!(a, Act::Ins(_)) as u32;
            twin.apply(ctx, a)
        });
        other(r);
    }
    ctx.add("states");
    Faulty { h, twin, lost_k: 0, lost_v: 0, panics: 0 }
}

fn finish<D, V, A>(ctx: &mut Ctx, mut f: Faulty<D, V, A>, what: &str)
where
    D: Dict<Tk, V, A>,
    V: ValT,
    A: AggT<Tk, V>,
{
    f.audit(ctx, "at the end");
    // fully usable: emptied, or simply dropped
    if ctx.rng.chance(1, 3) && !ctx.late() && !ctx.miri() {
        while let Some(e) = f.h.m.e.last().map(|e| e.0) {
            let i = ctx.rng.idx(f.h.m.len());
            let o = if ctx.rng.chance(1, 4) { e } else { f.h.m.at(i) };
            let t = f.twin.del(ctx, o);
            other(t);
            if let Err(e) = f.h.del(ctx, o) {
                f.blame(ctx, e);
            }
        }
    }
    f.h.describe(ctx, what, coll_name(D::TREE));
    ctx.desc.push_str(&format!(", {} panics", f.panics));
    ctx.nontrivial &= f.panics > 0;
    let (lk, lv) = (f.lost_k, f.lost_v);
    let Faulty { h, twin, .. } = f;
    drop(twin);
    drop(h);
    let (k, v) = (live(Class::Key), live(Class::Val));
    check!(
        (k, v) == (lk, lv),
        "{k} keys and {v} values are alive after the collection is gone, {lk} and {lv} belong to interrupted clones and bulk loads"
    );
}

fn body<D, V, A>(ctx: &mut Ctx, more: More<D, V, A>)
where
    D: Dict<Tk, V, A>,
    V: ValT,
    A: AggT<Tk, V>,
{
    let mut f = start::<D, V, A>(ctx);
    let steps = if ctx.miri() { 5 } else { ctx.steps(60) };
    for _ in 0..steps {
        if ctx.late() {
            break;
        }
        match ctx.rng.below(12) {
            0 => f.reads(ctx),
            1 if ctx.rng.chance(1, 4) => f.bulk(ctx),
            2 | 3 => more(ctx, &mut f),
            _ => match f.h.pick(ctx) {
                Act::Ins(o) => f.ins(ctx, o),
                Act::Del(o) => f.del(ctx, o),
            },
        }
    }
    finish(ctx, f, "a panic at every user call of");
}

/// a long history in which any call may panic
fn chaos<D, V, A>(ctx: &mut Ctx, more: More<D, V, A>)
where
    D: Dict<Tk, V, A>,
    V: ValT,
    A: AggT<Tk, V>,
{
    let mut f = start::<D, V, A>(ctx);
    let steps = ctx.steps(400 + 2 * f.h.sh.target);
    let freq = ctx.rng.pick(&[2, 5, 20]);
    for _ in 0..steps {
        if ctx.late() {
            break;
        }
        let a = f.h.pick(ctx);
        let (Act::Ins(o) | Act::Del(o)) = a;
        if ctx.rng.chance(1, freq) {
            let live0 = (live(Class::Key), live(Class::Val));
            let k = ctx.rng.below(30) as i64;
            arm(k, ctx.rng.pick(&[3, 1, 2]));
            let d = &mut f.h.d;
            let v = V::norm(1);
            let r = quietly(|| {
                catch_unwind(AssertUnwindSafe(|| match a {
                    Act::Ins(o) => d.insert(Tk::mk_tag(o, 9), V::mk(v)).map(|v| v.get()),
                    Act::Del(o) => {
                        let k = Tk::mk(o);
                        d.remove::<Tk>(&k).map(|v| v.get())
                    }
                }))
            });
            disarm();
            match r {
                Ok(_) => {
                    // it went through: the same on the twin, and in the model
                    let before = f.h.m.get(o).copied();
                    let t = base_op(true, || match a {
                        Act::Ins(o) => f.twin.d.insert(Tk::mk_tag(o, 9), V::mk(v)).map(|v| v.get()),
                        Act::Del(o) => f.twin.d.remove::<Tk>(&Tk::mk(o)).map(|v| v.get()),
                    });
                    if t != before.map(|p| p.0) {
                        foreign("wrong answer without a panic".into());
                    }
                    for m in [&mut f.h.m, &mut f.twin.m] {
                        match a {
                            Act::Ins(o) => {
                                let tag = before.map_or(9, |p| p.1);
                                m.insert(o, (v, tag));
                            }
                            Act::Del(o) => {
                                m.remove(o);
                            }
                        }
                    }
                    ctx.add("calls_that_went_through");
                }
                Err(p) => {
                    if !p.is::<Injected>() {
                        f.blame(ctx, format!("{a:?} panicked by itself"));
                    }
                    f.panics += 1;
                    ctx.add("injected_panics");
                    let full = due(ctx, f.h.m.len(), 2);
                    f.intact(ctx, "a call", k, live0, false, full);
                }
            }
        } else if ctx.rng.chance(1, 40) {
            more(ctx, &mut f);
        } else {
            let t = f.twin.apply(ctx, a);
            other(t);
            f.h.tc = f.twin.tc - matches!(a, Act::Ins(_)) as u32;
            f.h.vc = f.twin.vc - matches!(a, Act::Ins(_)) as u64;
            if let Err(e) = f.h.apply(ctx, a) {
                f.blame(ctx, e);
            }
        }
        if due(ctx, f.h.m.len(), 1) {
            f.audit(ctx, "later");
        }
    }
    finish(ctx, f, "panics scattered over");
}

fn tree_more<V: ValT + Clone, A: AggT<Tk, V>>(ctx: &mut Ctx, f: &mut Faulty<Tree<Tk, V, A>, V, A>) {
    let o = f.h.probe_key(ctx);
    let m = &f.h.m;
    let want = m.get(o).map(|p| p.0);
    let up = m.above(o).map(|e| (e.0, e.1 .0));
    let down = m.below(o).map(|e| (e.0, e.1 .0));
    let ends = (m.e.first().map(|e| e.0), m.e.last().map(|e| e.0));
    let len = m.len();
    match ctx.rng.below(5) {
        4 if len < 40 * ctx.n => {
            // overwritten with another collection; an interrupted clone_from changes neither
            let lo = f.h.probe_key(ctx);
            let n = ctx.rng.below(3 * ctx.n as u64) as u64;
            let step = ctx.rng.range(1, 5);
            let all: Vec<u64> = (0..n).map(|i| lo + i * step).collect();
            let tag = f.h.tc;
            let src = Tree::<Tk, V, A>::bulk(all.iter().map(|&o| (Tk::mk_tag(o, tag), V::mk(V::norm(o)))).collect());
            let mut m = Model::default();
            for &o in &all {
                m.insert(o, (V::norm(o), tag));
            }
            f.op(
                ctx,
                "clone_from",
                n,
                true,
                all.clone(),
                |d| {
                    d.clone_from(&src);
                    d.iter().map(|x| x.0.o()).collect()
                },
                |x| *x = m.clone(),
            );
            f.h.peak = f.h.peak.max(f.h.m.len());
            let same = src.iter().map(|x| (x.0.o(), x.1.get())).eq(all.iter().map(|&o| (o, V::norm(o))));
            check!(same, "a collection of {n} entries was changed by an interrupted clone_from of another one");
        }
        0 if len < 60 * ctx.n => {
            let all: Vec<u64> = m.e.iter().map(|e| e.0).collect();
            f.each(ctx, "clone", 0, true, all, |d| {
                let c = d.clone();
                let v: Vec<u64> = c.iter().map(|x| x.0.o()).collect();
                v
            });
        }
        1 => f.each(ctx, "cursor", o, false, ends, |d| {
            (Cursor::first(d).map(|x| x.0.key().o()), Cursor::last(d).map(|x| x.0.key().o()))
        }),
        2 if len > 0 => f.each(ctx, "cursor", o, false, (Some(want), want), |d| {
            let k = Tk::mk(o);
            let c = d.get_cursor(&k);
            let v = c.as_ref().map(|c| c.1.map(|v| v.get()));
            let w = c.as_ref().and_then(|c| c.0.value(d).map(|v| v.get()));
            (v, w)
        }),
        _ if len > 0 => f.each(ctx, "cursor step", o, false, (up, down), |d| {
            let k = Tk::mk(o);
            let c = d.get_cursor(&k).map(|c| c.0);
            let n = c.as_ref().and_then(|c| c.next_with_value(d)).map(|(c, v)| (c.key().o(), v.get()));
            let p = c.as_ref().and_then(|c| c.prev_with_value(d)).map(|(c, v)| (c.key().o(), v.get()));
            (n, p)
        }),
        _ => {}
    }
}
fn search_more<D, V, A>(ctx: &mut Ctx, f: &mut Faulty<D, V, A>)
where
    D: Dict<Tk, V, A>,
    V: ValT,
    A: AggT<Tk, V> + sweep_bptree::augment::SearchAugmentation<Tk, V, Query = Find>,
{
    let n = f.h.m.len();
    if n == 0 {
        return;
    }
    let i = ctx.rng.idx(n);
    let e = f.h.m.e[i];
    // removal by search clones separators
    f.op(
        ctx,
        "remove",
        e.0,
        false,
        Some((e.0, e.1 .0)),
        |d| d.take(Find::Nth(i as u64)).map(|(k, v)| (k.o(), v.get())),
        |m| {
            m.remove(e.0);
        },
    );
    ctx.add("removals_by_search");
}
fn tree_all<V: ValT + Clone>(ctx: &mut Ctx, f: &mut Faulty<Tree<Tk, V, Fold>, V, Fold>) {
    if ctx.rng.chance(1, 3) {
        search_more(ctx, f)
    } else {
        tree_more(ctx, f)
    }
}
fn tree_heap<V: ValT + Clone>(ctx: &mut Ctx, f: &mut Faulty<Tree<Tk, V, HeapFold>, V, HeapFold>) {
    if ctx.rng.chance(1, 3) {
        search_more(ctx, f)
    } else {
        tree_more(ctx, f)
    }
}
fn rank_user<D: Dict<Tk, Tv, Cnt>>(ctx: &mut Ctx, f: &mut Faulty<D, Tv, Cnt>) {
    let o = f.h.probe_key(ctx);
    let want = f.h.m.find(o).map(|i| i as u64).map_err(|i| i as u64);
    f.each(ctx, "rank", o, false, want, |d| d.rank(&Tk::mk(o)));
}
fn rank_count<D: Dict<Tk, Tv, Count>>(ctx: &mut Ctx, f: &mut Faulty<D, Tv, Count>) {
    let o = f.h.probe_key(ctx);
    let want = f.h.m.find(o);
    f.each(ctx, "rank", o, false, want, |d| d.rank(&Tk::mk(o)));
}
fn set_more(ctx: &mut Ctx, f: &mut Faulty<Set<Tk>, (), ()>) {
    if ctx.miri() && f.h.m.len() > 20 {
        return;
    }
    let mut keys: Vec<u64> = f.h.m.e.iter().map(|e| e.0).collect();
    let mut b: Set<Tk> = Set::default();
    for _ in 0..ctx.rng.below(8) {
        let o = f.h.probe_key(ctx);
        b.insert(Tk::mk(o));
        keys.push(o);
    }
    keys.sort();
    keys.dedup();
    keys.truncate(12);
    f.each(ctx, "union", 0, false, keys, |d| d.union(&b).take(12).map(|k| k.o()).collect::<Vec<_>>());
}

pub fn episode(ctx: &mut Ctx) {
    one_of!(ctx,
        4 => body::<Tree<Tk, Tv, Fold>, Tv, Fold>(ctx, tree_all),
        4 => body::<Tree<Tk, Tv, HeapFold>, Tv, HeapFold>(ctx, tree_heap),
        2 => body::<Tree<Tk, Tv, ()>, Tv, ()>(ctx, tree_more),
        1 => body::<Tree<Tk, Zv, ()>, Zv, ()>(ctx, tree_more),
        2 => body::<Map<Tk, Tv, HeapFold>, Tv, HeapFold>(ctx, search_more),
        1 => body::<Map<Tk, Tv, Cnt>, Tv, Cnt>(ctx, rank_user),
        1 => body::<Tree<Tk, Tv, Count>, Tv, Count>(ctx, rank_count),
        2 => body::<Set<Tk>, (), ()>(ctx, set_more),
        3 => chaos::<Tree<Tk, Tv, Fold>, Tv, Fold>(ctx, tree_all),
        2 => chaos::<Map<Tk, Tv, HeapFold>, Tv, HeapFold>(ctx, search_more),
        1 => chaos::<Set<Tk>, (), ()>(ctx, set_more),
    );
}
