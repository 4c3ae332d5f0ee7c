//! C09: safe use never causes undefined behaviour. The oracle is the sanitizer, the interpreter,
//! std's unsafe-precondition checks and the identity ledger; this is only the workload.
use super::*;
use crate::dict::{snapshot, Map, Set, Tree};
use crate::one_of;
use crate::types::*;
use std::hint::black_box;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::{Augmentation, SearchAugmentation};
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::tree::Cursor;

/// reads everything it is shown and goes down at random
struct Reader {
    rng: Rng,
    stop: u64,
}
impl<K: KeyT, V: ValT, A: AggT<K, V>> DescendVisit<K, V, A> for Reader {
    type Result = u64;
    fn visit_inner(&mut self, keys: &[K], aggs: &[A]) -> DescendVisitResult<u64> {
        let mut h = 0;
        for k in keys {
            h = mix(h, k.o());
        }
        for a in aggs {
            h = mix(h, a.sum().map_or(0, |s| s.h));
        }
        match self.rng.below(self.stop) {
            0 => DescendVisitResult::Complete(h),
            1 => DescendVisitResult::Cancel,
            _ => DescendVisitResult::GoDown(self.rng.idx(keys.len() + 1)),
        }
    }
    fn visit_leaf(&mut self, keys: &[K], vals: &[V]) -> Option<u64> {
        let mut h = 0;
        for k in keys {
            h = mix(h, k.o());
        }
        for v in vals {
            h = mix(h, v.get());
        }
        Some(h)
    }
}

fn consume<T>(ctx: &mut Ctx, mut it: impl DoubleEndedIterator<Item = T> + ExactSizeIterator, read: impl Fn(&T)) {
    let style = ctx.rng.below(4);
    let n = it.len();
    let stop = if ctx.rng.chance(1, 2) { n } else { ctx.rng.idx(n + 1) };
    let mut held = Vec::new();
    for i in 0..stop + 2 {
        progress();
        let x = match style {
            0 => it.next(),
            1 => it.next_back(),
            2 if i % 2 == 0 => it.next(),
            2 => it.next_back(),
            _ if ctx.rng.chance(1, 2) => it.next(),
            _ => it.next_back(),
        };
        match x {
            Some(x) => {
                read(&x);
                ctx.add("items_read");
                if i % 3 == 0 {
                    held.push(x);
                }
            }
            None if stop < n => break,
            None => {}
        }
    }
    if ctx.rng.chance(1, 2) {
        drop(it);
    }
    for x in &held {
        read(x);
    }
}
use crate::core::progress;

fn tree_ops<K, V, A>(ctx: &mut Ctx, h: &mut Hist<Tree<K, V, A>, K, V, A>, cs: &mut Vec<Cursor<K>>)
where
    K: KeyT,
    V: ValT + Clone,
    A: AggT<K, V> + SearchAugmentation<K, V, Query = Find>,
{
    let n = h.m.len();
    ctx.add("other_operations");
    let w = ctx.rng.below(24);
    ev("op", w, n as u64);
    match w {
        0 => {
            let o = h.probe_key(ctx);
            if let Some((c, v)) = h.d.get_cursor(&K::mk(o)) {
                black_box(v.map(|v| v.get()));
                cs.push(c);
            }
        }
        1 => cs.extend(Cursor::first(&h.d).map(|x| x.0)),
        2 => cs.extend(Cursor::last(&h.d).map(|x| x.0)),
        3..=6 if !cs.is_empty() => {
            let i = ctx.rng.idx(cs.len());
            let c = &cs[i];
            black_box((c.key().o(), c.value(&h.d).map(|v| v.get()), c.exists(&h.d)));
            let nx = if w % 2 == 0 { c.next_with_value(&h.d) } else { c.prev_with_value(&h.d) };
            if let Some((c, v)) = nx {
                black_box((c.key().o(), v.get()));
                cs[i] = c;
            }
            let y = if w > 4 { cs[i].next(&h.d) } else { cs[i].prev(&h.d) };
            if let Some(y) = y {
                black_box(y.key().o());
                if cs.len() < 12 {
                    cs.push(y);
                } else {
                    cs[i] = y;
                }
            }
        }
        7 => consume(ctx, h.d.iter(), |x| {
            black_box((x.0.o(), x.1.get()));
        }),
        8 => {
            let mut it = h.d.iter();
            it.next();
            let c = it.clone();
            it.next_back();
            drop(it);
            consume(ctx, c, |x| {
                black_box((x.0.o(), x.1.get()));
            });
        }
        9 if ctx.rng.chance(1, 4) => {
            let c = h.d.clone();
            consume(ctx, c.into_iter(), |x| {
                black_box((x.0.o(), x.1.get()));
            });
            ctx.add("consumed");
        }
        10 if ctx.rng.chance(1, 4) => {
            let c = h.d.clone();
            if ctx.rng.chance(1, 2) {
                h.d = c;
            } else {
                black_box(c.len());
            }
            ctx.add("clones");
        }
        11 if ctx.rng.chance(1, 12) => {
            h.d.clear();
            h.m = Model::new();
            ctx.add("clears");
        }
        12 if ctx.rng.chance(1, 4) => {
            let k = match ctx.rng.below(3) {
                0 => ctx.rng.below(2 * ctx.n as u64),
                1 => ctx.n as u64 * ctx.rng.range(1, 12),
                _ => ctx.rng.below(h.sh.target as u64 + 1),
            } as usize;
            let mut p = pattern(&mut ctx.rng, k, K::MAXO);
            let mut e: Vec<(u64, Pay)> = p.iter().map(|o| (*o, (V::norm(o * 3), 0))).collect();
            e.dedup_by_key(|x| x.0);
            if !p.is_empty() && ctx.rng.chance(1, 3) {
                // duplicates
                let i = ctx.rng.idx(p.len());
                for _ in 0..ctx.rng.range(1, ctx.n as u64) {
                    p.insert(i, p[i]);
                }
            }
            h.d = Tree::bulk(p.iter().map(|o| (K::mk(*o), V::mk(o * 3))).collect());
            h.m.e = e;
            ctx.add("bulk_loads");
        }
        13 => {
            let r = Reader { rng: ctx.rng.fork(), stop: 12 };
            black_box(h.d.visit(r));
        }
        14 if ctx.rng.chance(1, 6) && n < 2000 => {
            black_box(snapshot(&h.d, |a: &A| a.sum(), 4 * n + 64).nodes.len());
        }
        15 | 16 => {
            let q = [
                Find::Nth(ctx.rng.below(n as u64 + 2)),
                Find::NthBack(ctx.rng.below(n as u64 + 2)),
                Find::Best,
                Find::ByKey(h.probe_key(ctx)),
            ];
            let q = ctx.rng.pick(&q);
            if w == 15 {
                black_box(h.d.find(q).map(|x| (x.0.o(), x.1.get())));
            } else if let Some(v) = h.d.find_mut(q) {
                // keep the aggregates valid: same value
                *v = V::mk(v.get());
            }
        }
        17 if n > 0 => {
            if let Some((k, v)) = h.d.take(Find::Nth(ctx.rng.idx(n) as u64)) {
                black_box(v.get());
                h.m.remove(k.o());
            }
        }
        18 => {
            let (f, l) = (h.d.first(), h.d.last());
            black_box((f.map(|x| (x.0.o(), x.1.get())), l.map(|x| (x.0.o(), x.1.get()))));
        }
        19 => {
            let o = h.probe_key(ctx);
            if let Some(v) = K::with_q(o, |q| h.d.get_mut(q)) {
                *v = V::mk(v.get());
            }
        }
        20 => {
            black_box(h.d.root_agg().sum());
        }
        21 if cs.len() > 4 => {
            cs.swap_remove(0);
        }
        _ => {
            let o = h.probe_key(ctx);
            black_box(K::with_q(o, |q| h.d.get(q).map(|v| v.get())));
        }
    }
}

fn tree<K, V, A>(ctx: &mut Ctx)
where
    K: KeyT,
    V: ValT + Clone,
    A: AggT<K, V> + SearchAugmentation<K, V, Query = Find>,
{
    let target = ctx.size();
    let steps = if ctx.miri() { 90 + 3 * target } else { ctx.steps(400 + 4 * target) };
    let mut h: Hist<Tree<K, V, A>, K, V, A> = Hist::new(ctx, target);
    h.foreign = true;
    let mut cs: Vec<Cursor<K>> = Vec::new();
    for _ in 0..steps {
        if ctx.late() {
            break;
        }
        if ctx.rng.chance(2, 3) {
            let (_, r) = h.step(ctx);
            other(r);
        } else {
            tree_ops(ctx, &mut h, &mut cs);
        }
    }
    h.describe(ctx, "every call on", "BPlusTree");
    match ctx.rng.below(4) {
        0 => h.d.clear(),
        1 => consume(ctx, h.d.into_iter(), |x| {
            black_box((x.0.o(), x.1.get()));
        }),
        2 => {
            while let Some(l) = h.m.e.last().map(|x| x.0) {
                let r = h.del(ctx, l);
                other(r);
            }
        }
        _ => {}
    }
}

fn map<K: KeyT, V: ValT, A: Augmentation<K, V>>(ctx: &mut Ctx, extra: impl Fn(&mut Ctx, &mut Hist<Map<K, V, A>, K, V, A>)) {
    let target = ctx.size();
    let steps = if ctx.miri() { 60 + 2 * target } else { ctx.steps(400 + 3 * target) };
    let mut h: Hist<Map<K, V, A>, K, V, A> = Hist::new(ctx, target);
    h.foreign = true;
    for _ in 0..steps {
        if ctx.late() {
            break;
        }
        let (_, r) = h.step(ctx);
        other(r);
        match ctx.rng.below(12) {
            0 => consume(ctx, h.d.iter(), |x| {
                black_box((x.0.o(), x.1.get()));
            }),
            1 => {
                let o = h.probe_key(ctx);
                if let Some(v) = K::with_q(o, |q| h.d.get_mut(q)) {
                    *v = V::mk(v.get());
                }
            }
            2 => {
                let o = h.probe_key(ctx);
                black_box(K::with_q(o, |q| h.d.get(q).map(|v| v.get())));
            }
            3 => extra(ctx, &mut h),
            4 if ctx.rng.chance(1, 20) => {
                let k = ctx.rng.below(target as u64 + 1) as usize;
                let p = pattern(&mut ctx.rng, k, K::MAXO);
                h.m.e = p.iter().map(|o| (*o, (V::norm(o * 3), 0))).collect();
                h.d = Map::bulk(p.iter().rev().map(|o| (K::mk(*o), V::mk(o * 3))).collect());
                ctx.add("bulk_loads");
            }
            _ => {}
        }
    }
    h.describe(ctx, "every call on", "BPlusTreeMap");
}
fn positions<K: KeyT, V: ValT>(ctx: &mut Ctx, h: &mut Hist<Map<K, V, Count>, K, V, Count>) {
    ctx.add("other_operations");
    let n = h.m.len();
    let i = ctx.rng.below(n as u64 + 2) as usize;
    black_box(h.d.find(i).map(|x| (x.0.o(), x.1.get())));
    if let Some(v) = h.d.find_mut(i) {
        *v = V::mk(v.get());
    }
    let o = h.probe_key(ctx);
    black_box(h.d.rank(&K::mk(o)).is_ok());
    if ctx.rng.chance(1, 3) {
        if let Some((k, _)) = h.d.take(i) {
            h.m.remove(k.o());
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Name(String);
impl<K: KeyT> sweep_bptree::augment::group::FromRef<K> for Name {
    fn from_ref(k: &K) -> Self {
        Name(format!("{:08}", k.o() / 13))
    }
}
type Gc = sweep_bptree::augment::group::GroupCount<Name>;
fn grouped<K: KeyT, V: ValT>(ctx: &mut Ctx, h: &mut Hist<Map<K, V, Gc>, K, V, Gc>) {
    use sweep_bptree::augment::group::ExtractGroupSize;
    ctx.add("other_operations");
    let o = h.probe_key(ctx);
    let k = K::mk(o);
    let g = <Name as sweep_bptree::augment::group::FromRef<K>>::from_ref(&k);
    black_box(h.d.root_agg().max_group().map(|x| x.1));
    black_box(h.d.visit(ExtractGroupSize::<Name, K>::new(g.clone())));
    black_box(h.d.find((g.clone(), ctx.rng.idx(14))).map(|x| (x.0.o(), x.1.get())));
    black_box(h.d.rank(&k).is_ok());
    if ctx.rng.chance(1, 3) {
        if let Some((k, _)) = h.d.take((g, ctx.rng.idx(4))) {
            h.m.remove(k.o());
        }
    }
}

fn set<K: KeyT>(ctx: &mut Ctx) {
    let target = ctx.size();
    let steps = if ctx.miri() { 60 + 2 * target } else { ctx.steps(400 + 3 * target) };
    let mut a: Hist<Set<K>, K, (), ()> = Hist::new(ctx, target);
    let mut b: Hist<Set<K>, K, (), ()> = Hist::new(ctx, target);
    a.foreign = true;
    b.foreign = true;
    for _ in 0..steps {
        if ctx.late() {
            break;
        }
        let (_, r) = a.step(ctx);
        other(r);
        let (_, r) = b.step(ctx);
        other(r);
        match ctx.rng.below(20) {
            0 => {
                let mut u = a.d.union(&b.d);
                let mut c = u.clone();
                for _ in 0..ctx.rng.below(10) {
                    black_box(u.next().map(|k| k.o()));
                    black_box(u.size_hint());
                }
                black_box(c.next().map(|k| k.o()));
                for k in u {
                    black_box(k.o());
                }
                black_box(c.min().map(|k| k.o()));
                ctx.add("unions");
            }
            1 => consume(ctx, a.d.iter(), |k| {
                black_box(k.o());
            }),
            2 if ctx.rng.chance(1, 10) => {
                let d = std::mem::take(&mut a.d);
                a.m = Model::new();
                consume(ctx, d.into_iter(), |k| {
                    black_box(k.o());
                });
                ctx.add("consumed");
            }
            3 if ctx.rng.chance(1, 20) => {
                b.d.clear();
                b.m = Model::new();
                ctx.add("clears");
            }
            4 => {
                black_box((a.d.first().map(|k| k.o()), a.d.last().map(|k| k.o())));
                let o = a.probe_key(ctx);
                black_box(K::with_q(o, |q| a.d.contains(q)));
            }
            _ => {}
        }
    }
    a.describe(ctx, "every call on", "BPlusTreeSet");
}

/// a short life of a tree of each of many memory layouts: splits and merges of both kinds of nodes,
/// moves between leaves, copies, both kinds of iterators
fn sweep<K, V, A>(ctx: &mut Ctx)
where
    K: KeyT,
    V: ValT + Clone,
    A: AggT<K, V> + SearchAugmentation<K, V, Query = Find>,
{
    let n = ctx.n as u64;
    let count = if ctx.miri() { n * 4 } else { ctx.rng.range(n * 3, n * 90) };
    let step = 2 * ctx.rng.below(4000) + 1;
    let mut h: Hist<Tree<K, V, A>, K, V, A> = Hist::new(ctx, count as usize);
    h.foreign = true;
    let order = ctx.rng.below(3);
    for i in 0..count {
        let i = match order {
            0 => i,
            1 => count - 1 - i,
            _ => i * 7919 % count,
        };
        let r = h.ins(ctx, i * step % K::MAXO);
        other(r);
    }
    let mut cs = Vec::new();
    for _ in 0..if ctx.miri() { 8 } else { 40 } {
        tree_ops(ctx, &mut h, &mut cs);
    }
    let copy = h.d.clone();
    let from = ctx.rng.below(3);
    let keep = ctx.rng.idx(6);
    while h.m.len() > keep && !ctx.late() {
        let i = match from {
            0 => 0,
            1 => h.m.len() - 1,
            _ => ctx.rng.idx(h.m.len()),
        };
        let o = h.m.at(i);
        let r = h.del(ctx, o);
        other(r);
        let (nx, pv) = (h.m.above(o).map(|x| x.0), h.m.below(o).map(|x| x.0));
        for x in [nx, pv].into_iter().flatten() {
            black_box(K::with_q(x, |q| h.d.get(q).map(|v| v.get())));
        }
    }
    consume(ctx, copy.iter(), |x| {
        black_box((x.0.o(), x.1.get()));
    });
    consume(ctx, copy.into_iter(), |x| {
        black_box((x.0.o(), x.1.get()));
    });
    let bulk: Tree<K, V, A> = Tree::bulk_load((0..count.min(K::MAXO / 4)).map(|i| (K::mk(i * 3), V::mk(i))).collect());
    for x in bulk.iter() {
        black_box((x.0.o(), x.1.get()));
    }
    ctx.add("layouts_swept");
    h.describe(ctx, "every memory layout of", "BPlusTree");
}
fn layouts(ctx: &mut Ctx) {
    // under Miri a run is short, so an episode takes several
    for _ in 0..if ctx.miri() { 3 } else { 1 } {
        one_of!(ctx,
            1 => sweep::<Fat, Padded, Fold>(ctx),
            1 => sweep::<Padded, Fat, HeapFold>(ctx),
            1 => sweep::<Odd, Mixed, Fold>(ctx),
            1 => sweep::<Niche, Odd, Fold>(ctx),
            1 => sweep::<Mixed, Niche, HeapFold>(ctx),
            1 => sweep::<Twelve, Half, Fold>(ctx),
            1 => sweep::<Half, Wide, Fold>(ctx),
            1 => sweep::<Wide, Twelve, Fold>(ctx),
        );
    }
}

pub fn episode(ctx: &mut Ctx) {
    if ctx.rng.chance(if ctx.miri() { 2 } else { 1 }, 4) {
        return layouts(ctx);
    }
    one_of!(ctx,
        4 => tree::<Tk, Tv, HeapFold>(ctx),
        4 => tree::<String, String, HeapFold>(ctx),
        2 => tree::<u64, u64, Fold>(ctx),
        1 => tree::<Al, Big, HeapFold>(ctx),
        1 => tree::<(), Tv, HeapFold>(ctx),
        1 => tree::<Box<u64>, (), Fold>(ctx),
        1 => tree::<Vec<u8>, Al, HeapFold>(ctx),
        2 => map::<String, Tv, ()>(ctx, |_, _| ()),
        2 => map::<Tk, String, Count>(ctx, positions),
        2 => map::<String, u64, Gc>(ctx, grouped),
        2 => set::<String>(ctx),
        1 => set::<Tk>(ctx),
        1 => set::<()>(ctx),
    );
}
