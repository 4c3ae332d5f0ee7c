//! C12: shared concurrent reading is race-free and correct.
//! Every reader's answers are compared with answers computed before; ThreadSanitizer and Miri
//! judge the memory accesses.
use super::*;
use crate::core::{progress, quietly};
use crate::dict::{snapshot, Map, Set, Tree};
use crate::one_of;
use crate::types::*;
use std::cell::Cell;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::group::{ExtractGroupSize, FromRef, GroupCount};
use sweep_bptree::tree::{Cursor, IntoIter, Iter};
use sweep_bptree::NodeStoreVec;

// a collection of shareable things can be shared and moved between threads ...
fn shareable<T: Send + Sync>() {}
#[allow(dead_code)]
fn _compiles() {
    shareable::<Tree<u64, u64>>();
    shareable::<Tree<String, Vec<u8>, Count>>();
    shareable::<Map<u64, u64>>();
    shareable::<Map<String, String, GroupCount<G>>>();
    shareable::<Set<String>>();
    shareable::<Cursor<String>>();
}
// ... and one of unshareable things cannot, or safe code could race
struct Probe<T>(PhantomData<T>);
trait Not {
    const SYNC: bool = false;
}
impl<T> Not for Probe<T> {}
struct Probe2<T>(PhantomData<T>);
trait Not2 {
    const SEND: bool = false;
}
impl<T> Not2 for Probe2<T> {}
impl<T: Sync> Probe<T> {
    const SYNC: bool = true;
}
impl<T: Send> Probe2<T> {
    const SEND: bool = true;
}
fn unshareable(ctx: &mut Ctx) {
    ctx.add("marker_traits_checked");
    check!(!Probe::<Tree<u64, Cell<u64>>>::SYNC, "a BPlusTree of Cell values may be shared between threads");
    check!(!Probe::<Map<u64, Cell<u64>>>::SYNC, "a BPlusTreeMap of Cell values may be shared between threads");
    check!(!Probe2::<Tree<u64, Rc<u64>>>::SEND, "a BPlusTree of Rc values may be sent to another thread");
    check!(!Probe2::<Map<u64, Rc<u64>>>::SEND, "a BPlusTreeMap of Rc values may be sent to another thread");
    check!(!Probe2::<Set<Rc<u64>>>::SEND, "a BPlusTreeSet of Rc keys may be sent to another thread");
    check!(!Probe::<Tree<u64, u64, CellAgg>>::SYNC, "a BPlusTree with aggregates of Cells may be shared between threads");
    check!(!Probe::<Map<u64, u64, CellAgg>>::SYNC, "a BPlusTreeMap with aggregates of Cells may be shared between threads");
    check!(!Probe::<NodeStoreVec<u64, Cell<u64>>>::SYNC, "a node store of Cell values may be shared between threads");
    check!(!Probe2::<Iter<'static, NodeStoreVec<u64, Cell<u64>>>>::SEND, "an iterator over Cell values may be sent to another thread");
    check!(!Probe2::<IntoIter<NodeStoreVec<u64, Rc<u64>>>>::SEND, "an owning iterator of Rc values may be sent to another thread");
    check!(!Probe2::<Cursor<Rc<u64>>>::SEND, "a cursor with an Rc key may be sent to another thread");
}
/// an aggregate that may be moved between threads and not shared
#[derive(Clone, Default)]
struct CellAgg(#[allow(dead_code)] Cell<u64>);
impl Augmentation<u64, u64> for CellAgg {
    fn from_inner(_: &[u64], _: &[Self]) -> Self {
        CellAgg::default()
    }
    fn from_leaf(_: &[u64], _: &[u64]) -> Self {
        CellAgg::default()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct G(u64);
impl<K: KeyT> FromRef<K> for G {
    fn from_ref(k: &K) -> Self {
        G(k.o() / 11)
    }
}

type Extra<D> = fn(&D, &Model<Pay>, &mut Rng, u64) -> Res;

fn none<D>(_: &D, _: &Model<Pay>, _: &mut Rng, _: u64) -> Res {
    Ok(())
}
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, o: u64, got: T, want: T) -> Res {
    if got != want {
        return Err(format!("{what} (#{o}): {got:?} instead of {want:?}"));
    }
    Ok(())
}
fn cursors<K: KeyT, V: ValT, A: AggT<K, V>>(d: &Tree<K, V, A>, m: &Model<Pay>, rng: &mut Rng, o: u64) -> Res {
    match rng.below(3) {
        0 => {
            let k = K::mk(o);
            let c = d.get_cursor(&k);
            eq("get_cursor", o, c.is_some() || m.is_empty(), true)?;
            if let Some((c, v)) = c {
                eq("value with a cursor", o, v.map(|v| v.get()), m.get(o).map(|p| p.0))?;
                eq("cursor value", o, c.value(d).map(|v| v.get()), m.get(o).map(|p| p.0))?;
                eq(
                    "cursor next",
                    o,
                    c.next_with_value(d).map(|(c, v)| (c.key().o(), v.get())),
                    m.above(o).map(|e| (e.0, e.1 .0)),
                )?;
                eq(
                    "cursor prev",
                    o,
                    c.prev_with_value(d).map(|(c, v)| (c.key().o(), v.get())),
                    m.below(o).map(|e| (e.0, e.1 .0)),
                )?;
            }
        }
        1 => {
            let mut c = Cursor::first(d).map(|(c, v)| (c, v.get()));
            for i in 0..20 {
                let g = c.as_ref().map(|(c, v)| (c.key().o(), *v));
                eq("cursor walk up", i, g, m.e.get(i as usize).map(|e| (e.0, e.1 .0)))?;
                let Some((x, _)) = c else { break };
                c = x.next_with_value(d).map(|(c, v)| (c, v.get()));
            }
        }
        _ => {
            let mut c = Cursor::last(d).map(|(c, v)| (c, v.get()));
            for i in 0..20usize {
                let g = c.as_ref().map(|(c, v)| (c.key().o(), *v));
                let w = m.len().checked_sub(i + 1).map(|i| (m.e[i].0, m.e[i].1 .0));
                eq("cursor walk down", i as u64, g, w)?;
                let Some((x, _)) = c else { break };
                c = x.prev_with_value(d).map(|(c, v)| (c, v.get()));
            }
        }
    }
    Ok(())
}
fn clone_it<K: KeyT, V: ValT + Clone, A: AggT<K, V>>(d: &Tree<K, V, A>, m: &Model<Pay>) -> Res {
    let mut c = d.clone();
    eq("size of a clone", 0, c.len(), m.len())?;
    if let Some(e) = m.e.first() {
        let r = K::with_q(e.0, |q| c.remove(q)).map(|v| v.get());
        eq("removal from a clone", e.0, r, Some(e.1 .0))?;
    }
    let mut i = m.len().min(1);
    for (k, v) in c.into_iter() {
        eq("entry of a clone", i as u64, Some((k.o(), v.get())), m.e.get(i).map(|e| (e.0, e.1 .0)))?;
        i += 1;
    }
    eq("entries of a clone", 0, i, m.len())
}
fn counted<K: KeyT, V: ValT + Clone>(d: &Tree<K, V, Count>, m: &Model<Pay>, rng: &mut Rng, o: u64) -> Res {
    match rng.below(8) {
        0..=2 => {
            let i = rng.below(m.len() as u64 + 2) as usize;
            let g = d.get_by_augmentation(i).map(|(k, v)| (k.o(), v.get()));
            eq("position", i as u64, g, m.e.get(i).map(|e| (e.0, e.1 .0)))
        }
        3 | 4 => eq("rank", o, d.rank_by_augmentation(&K::mk(o)), m.find(o)),
        5 if rng.chance(1, 6) && m.len() < 3000 => clone_it(d, m),
        _ => cursors(d, m, rng, o),
    }
}
fn summed<K: KeyT, V: ValT + Clone>(d: &Tree<K, V, Fold>, m: &Model<Pay>, rng: &mut Rng, o: u64) -> Res {
    match rng.below(8) {
        0..=2 => {
            let i = rng.below(m.len() as u64 + 2);
            let g = d.get_by_augmentation(Find::NthBack(i)).map(|(k, v)| (k.o(), v.get()));
            let w = (m.len() as u64).checked_sub(i + 1).map(|i| (m.e[i as usize].0, m.e[i as usize].1 .0));
            eq("position from the back", i, g, w)
        }
        3 => {
            let g = d.get_by_augmentation(Find::ByKey(o)).map(|(k, v)| (k.o(), v.get()));
            eq("search by key", o, g, m.get(o).map(|p| (o, p.0)))
        }
        4 if rng.chance(1, 8) && m.len() < 1500 => {
            let s = snapshot(d, |a: &Fold| a.0.n, 4 * m.len() + 64);
            let l: Vec<u64> = s.leaves().flat_map(|n| n.keys.iter().copied()).collect();
            eq("keys seen by a visitor", 0, l.len(), m.len())?;
            for (a, b) in l.iter().zip(&m.e) {
                eq("key seen by a visitor", 0, *a, b.0)?;
            }
            Ok(())
        }
        5 => eq("whole aggregate", 0, d.root_augmentation().0.n, m.len() as u64),
        6 if rng.chance(1, 6) && m.len() < 3000 => clone_it(d, m),
        _ => cursors(d, m, rng, o),
    }
}
fn grouped<K: KeyT, V: ValT>(d: &Map<K, V, GroupCount<G>>, m: &Model<Pay>, rng: &mut Rng, o: u64) -> Res {
    let g = o / 11;
    let first = match m.find(g * 11) {
        Ok(i) | Err(i) => i,
    };
    let end = match m.find(g * 11 + 11) {
        Ok(i) | Err(i) => i,
    };
    match rng.below(3) {
        0 => {
            let s = d.descend_visit(ExtractGroupSize::<G, K>::new(G(g)));
            eq("group size", g, s.unwrap_or(0), end - first)
        }
        1 => {
            let i = rng.idx(12);
            let x = d.get_by_augmentation((G(g), i)).map(|(k, v)| (k.o(), v.get()));
            let w = if first + i < end { Some((m.e[first + i].0, m.e[first + i].1 .0)) } else { None };
            eq("entry of a group", o, x, w)
        }
        _ => eq("present by group rank", o, d.rank_by_augmentation(&K::mk(o)).is_ok(), m.find(o).is_ok()),
    }
}
fn with_union<K: KeyT>(d: &Set<K>, m: &Model<Pay>, rng: &mut Rng, _: u64) -> Res {
    // a private second set against the shared one
    let mut other: Set<K> = Set::default();
    let mut keys: Vec<u64> = m.e.iter().map(|e| e.0).collect();
    for _ in 0..rng.below(6) {
        let o = rng.below(K::MAXO.min(5000));
        other.insert(K::mk(o));
        keys.push(o);
    }
    keys.sort();
    keys.dedup();
    let take = if rng.chance(1, 4) { keys.len() + 1 } else { rng.idx(30) };
    let mut u = if rng.chance(1, 2) { d.union(&other) } else { other.union(d) };
    for i in 0..take {
        eq("union", i as u64, u.next().map(|k| k.o()), keys.get(i).copied())?;
    }
    Ok(())
}

/// one read with everything it returns compared
fn read<D, K, V, A>(d: &D, m: &Model<Pay>, rng: &mut Rng, hot: u64, extra: Extra<D>) -> Res
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    let n = m.len();
    // hot: a thread keeps coming back to few keys while the others look elsewhere
    let o = match rng.below(8) {
        0 => rng.below(K::MAXO.min(m.e.last().map_or(10, |e| e.0 + 3))),
        1 if n > 0 => m.at(rng.idx(n)) + 1,
        2 if n > 0 => m.at(0),
        3 if n > 0 => m.at(n - 1),
        4 | 5 if n > 0 => m.at(((hot >> (16 * rng.below(4))) & 0xffff) as usize % n),
        _ if n > 0 => m.at(rng.idx(n)),
        _ => 0,
    }
    .min(K::MAXO - 1);
    match rng.below(12) {
        0..=6 => {
            let g = K::with_q(o, |q| d.get(q).map(|v| v.get()));
            eq("lookup", o, g, m.get(o).map(|p| p.0))
        }
        7 => {
            let take = if rng.chance(1, 8) { n + 1 } else { rng.idx(40) };
            let (mut a, mut b) = (0, n);
            let mut it = d.iter();
            for _ in 0..take {
                eq("remaining length", 0, it.len(), b - a)?;
                if rng.chance(1, 2) {
                    let w = if a < b { Some((m.e[a].0, m.e[a].1 .0)) } else { None };
                    eq("iteration", a as u64, it.next().map(|(k, v)| (k.o(), v.get())), w)?;
                    a = (a + 1).min(b);
                } else {
                    let w = if a < b { Some((m.e[b - 1].0, m.e[b - 1].1 .0)) } else { None };
                    eq("iteration from the back", b as u64, it.next_back().map(|(k, v)| (k.o(), v.get())), w)?;
                    b = if a < b { b - 1 } else { b };
                }
            }
            Ok(())
        }
        8 => {
            if let Some(f) = d.first() {
                eq("first", 0, f.map(|(k, v)| (k.o(), v.get())), m.e.first().map(|e| (e.0, e.1 .0)))?;
            }
            if let Some(l) = d.last() {
                eq("last", 0, l.map(|(k, v)| (k.o(), v.get())), m.e.last().map(|e| (e.0, e.1 .0)))?;
            }
            eq("len", 0, (d.len(), d.is_empty()), (n, n == 0))
        }
        _ => extra(d, m, rng, o),
    }
}

/// panics of the code under test become a wrong answer
fn guarded<D, K, V, A>(d: &D, m: &Model<Pay>, rng: &mut Rng, hot: u64, extra: Extra<D>) -> Res
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    quietly(|| {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| read::<D, K, V, A>(d, m, rng, hot, extra))) {
            Ok(r) => r,
            Err(e) => Err(match e.downcast_ref::<String>() {
                Some(s) => format!("panic: {s}"),
                None => format!("panic: {}", e.downcast_ref::<&str>().unwrap_or(&"?")),
            }),
        }
    })
}

/// order in which the threads' calls completed, for the evidence only (relaxed: creates no order)
static TICKET: AtomicU64 = AtomicU64::new(0);
static INFLIGHT: AtomicU64 = AtomicU64::new(0);

struct Seen {
    reads: u64,
    tickets: Vec<u64>,
    overlapped: u64,
    bad: Option<(Rng, String)>,
    rng: Rng,
}

fn round<D, K, V, A>(ctx: &mut Ctx, h: &Hist<D, K, V, A>, extra: Extra<D>, threads: usize, per: usize)
where
    D: Dict<K, V, A> + Send + Sync,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    // alone first: whatever goes wrong here is not about sharing
    if h.contents_ok(ctx, false).is_err() {
        foreign("wrong contents on a single thread".into());
    }
    for _ in 0..20 {
        let mut r = ctx.rng.fork();
        let hot = ctx.rng.next();
        if let Err(e) = guarded::<D, K, V, A>(&h.d, &h.m, &mut r, hot, extra) {
            foreign(format!("wrong answer on a single thread: {e}"));
        }
    }
    let go = AtomicBool::new(false);
    let ready = AtomicUsize::new(0);
    let hots: Vec<u64> = (0..threads).map(|_| ctx.rng.next()).collect();
    let rngs: Vec<Rng> = (0..threads).map(|_| ctx.rng.fork()).collect();
    let delay = ctx.rng.below(4);
    TICKET.store(0, Relaxed);
    let (d, m) = (&h.d, &h.m);
    let seen: Vec<Seen> = std::thread::scope(|s| {
        let hs: Vec<_> = rngs
            .into_iter()
            .zip(hots.iter().copied())
            .enumerate()
            .map(|(t, (mut rng, hot))| {
                let (go, ready) = (&go, &ready);
                s.spawn(move || {
                    ready.fetch_add(1, Relaxed);
                    while !go.load(Relaxed) {
                        std::thread::yield_now();
                    }
                    let mut out = Seen { reads: 0, tickets: Vec::with_capacity(per), overlapped: 0, bad: None, rng: Rng::new(t as u64) };
                    for i in 0..per {
                        let before = rng.clone();
                        let others = INFLIGHT.fetch_add(1, Relaxed);
                        let r = guarded::<D, K, V, A>(d, m, &mut rng, hot, extra);
                        INFLIGHT.fetch_sub(1, Relaxed);
                        out.overlapped += (others > 0) as u64;
                        out.tickets.push(TICKET.fetch_add(1, Relaxed));
                        out.reads += 1;
                        progress();
                        if let Err(e) = r {
                            out.bad = Some((before, e));
                            break;
                        }
                        match delay {
                            0 if i % 3 == 0 => std::thread::yield_now(),
                            1 => {
                                for _ in 0..rng.below(60) {
                                    std::hint::spin_loop();
                                }
                            }
                            2 if i % 64 == 63 && t % 2 == 0 => std::thread::sleep(std::time::Duration::from_micros(rng.below(40))),
                            _ => {}
                        }
                    }
                    out.rng = rng;
                    out
                })
            })
            .collect();
        while ready.load(Relaxed) < threads {
            std::thread::yield_now();
        }
        go.store(true, Relaxed);
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    ctx.add("rounds");
    let mut order = vec![255u8; seen.iter().map(|s| s.tickets.len()).sum()];
    for (t, s) in seen.iter().enumerate() {
        ctx.st.add("concurrent_reads", s.reads);
        ctx.st.add("reads_overlapping_another", s.overlapped);
        for k in &s.tickets {
            if let Some(x) = order.get_mut(*k as usize) {
                *x = t as u8;
            }
        }
    }
    ctx.st.add("thread_switches", order.windows(2).filter(|w| w[0] != w[1]).count() as u64);
    for w in order.chunks(10) {
        if w.iter().any(|x| *x != w[0]) {
            ctx.st.shape(w.iter().fold(5, |h, x| mix(h, *x as u64)));
        }
    }
    for s in seen {
        if let Some((r, e)) = s.bad {
            // does the same call answer wrongly alone, too?
            for &hot in &hots {
                for _ in 0..3 {
                    if let Err(e2) = guarded::<D, K, V, A>(&h.d, &h.m, &mut r.clone(), hot, extra) {
                        if e2 == e {
                            foreign(format!("wrong answer, also on a single thread: {e}"));
                        }
                    }
                }
            }
            crate::fail!("a read shared with {} other threads answered wrongly, alone it answers correctly: {e}", threads - 1);
        }
    }
}
fn body<D, K, V, A>(ctx: &mut Ctx, extra: Extra<D>, name: &str)
where
    D: Dict<K, V, A> + Send + Sync + 'static,
    K: KeyT + Send,
    V: ValT + Send,
    A: Augmentation<K, V>,
{
    unshareable(ctx);
    let (threads, per, rounds, target) = match ctx.tier {
        crate::core::Tier::Miri => (2 + ctx.rng.idx(2), 14, 2, 10 + ctx.rng.idx(50)),
        crate::core::Tier::San => (2 + ctx.rng.idx(5), 250, 4, ctx.size().min(3000)),
        _ => (2 + ctx.rng.idx(7), 1500, 5, ctx.size().min(20_000)),
    };
    let mut h: Hist<D, K, V, A> = Hist::new(ctx, target);
    h.foreign = true;
    h.grow(ctx, if ctx.miri() { 10 } else { 60 });
    for _ in 0..rounds {
        if ctx.late() && ctx.nontrivial {
            break;
        }
        round(ctx, &h, extra, threads, per);
        ctx.nontrivial |= h.m.len() > ctx.n;
        // modify between the rounds, at times on another thread
        let steps = ctx.rng.idx(if ctx.miri() { 12 } else { 2 * ctx.n + 60 });
        let acts: Vec<Act> = {
            let mut m2 = h.m.clone();
            (0..steps)
                .map(|_| {
                    let mut a = h.sh.next(&mut ctx.rng, &m2);
                    match &mut a {
                        Act::Ins(o) | Act::Del(o) => *o = (*o).min(K::MAXO - 1),
                    }
                    match a {
                        Act::Ins(o) => {
                            m2.insert(o, (0, 0));
                        }
                        Act::Del(o) => {
                            m2.remove(o);
                        }
                    }
                    a
                })
                .collect()
        };
        if ctx.rng.chance(1, 2) {
            ctx.add("moves_to_another_thread");
            let Hist { d, m, sh, vc, tc, foreign: _, peak, _p } = h;
            let (d, m, vc, bad) = std::thread::spawn(move || {
                let (mut d, mut m, mut vc) = (d, m, vc);
                let mut bad = None;
                for a in acts {
                    let (g, w) = match a {
                        Act::Ins(o) => {
                            vc += 1;
                            let v = V::norm(mix(vc, 5) >> 16);
                            let (k, x) = (K::mk(o), V::mk(v));
                            let g = base_op(true, || d.insert(k, x)).map(|v| v.get());
                            let w = m.get(o).map(|p| p.0);
                            m.insert(o, (v, 0));
                            (g, w)
                        }
                        Act::Del(o) => {
                            let g = base_op(true, || K::with_q(o, |q| d.remove(q))).map(|v| v.get());
                            (g, m.remove(o).map(|p| p.0))
                        }
                    };
                    progress();
                    if g != w {
                        bad = Some(format!("{a:?} returned {g:?} instead of {w:?}"));
                        break;
                    }
                }
                (d, m, vc, bad)
            })
            .join()
            .unwrap();
            h = Hist { peak: peak.max(m.len()), d, m, sh, vc, tc, foreign: true, _p };
            if let Some(b) = bad {
                other::<()>(Err(b));
            }
        } else {
            for a in acts {
                let r = h.apply(ctx, a);
                other(r);
            }
        }
    }
    if h.contents_ok(ctx, false).is_err() {
        foreign("wrong contents on a single thread".into());
    }
    h.describe(ctx, &format!("{threads} readers of"), name);
    ctx.st.max("threads", threads as u64);
    // dropped elsewhere
    let d = h.d;
    if ctx.rng.chance(1, 2) {
        std::thread::spawn(move || drop(d)).join().unwrap();
    }
}

pub fn episode(ctx: &mut Ctx) {
    one_of!(ctx,
        4 => body::<Tree<u64, u64, Count>, u64, u64, Count>(ctx, counted, "BPlusTree"),
        3 => body::<Tree<String, String, Fold>, String, String, Fold>(ctx, summed, "BPlusTree"),
        3 => body::<Map<u64, u64, ()>, u64, u64, ()>(ctx, none, "BPlusTreeMap"),
        2 => body::<Map<u64, String, GroupCount<G>>, u64, String, GroupCount<G>>(ctx, grouped, "BPlusTreeMap"),
        2 => body::<Set<String>, String, (), ()>(ctx, with_union, "BPlusTreeSet"),
    );
}
