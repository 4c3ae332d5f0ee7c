//! C08: group queries are exact for grouped collections.
use super::*;
use crate::dict::{Map, Tree};
use crate::one_of;
use crate::types::*;
use std::cell::RefCell;
use std::fmt::Debug;
use sweep_bptree::augment::group::{ExtractGroupSize, FromRef, GroupCount, Tuple2};

thread_local! {
    /// first key number of each group but the first
    static STARTS: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
}
fn group_of(o: u64) -> u64 {
    STARTS.with(|s| s.borrow().partition_point(|x| *x <= o) as u64)
}
fn group_count() -> u64 {
    STARTS.with(|s| s.borrow().len() as u64 + 1)
}

pub trait Grp<K>: FromRef<K> + Clone + Ord + Debug + 'static {
    fn mk(g: u64) -> Self;
    fn id(&self) -> u64;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct G(u64);
impl<K: KeyT> FromRef<K> for G {
    fn from_ref(k: &K) -> Self {
        G(group_of(k.o()))
    }
}
impl<K: KeyT> Grp<K> for G {
    fn mk(g: u64) -> Self {
        G(g)
    }
    fn id(&self) -> u64 {
        self.0
    }
}
/// heap-owning group name
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Gs(String);
impl<K: KeyT> FromRef<K> for Gs {
    fn from_ref(k: &K) -> Self {
        <Gs as Grp<K>>::mk(group_of(k.o()))
    }
}
impl<K: KeyT> Grp<K> for Gs {
    fn mk(g: u64) -> Self {
        Gs(format!("{g:07}"))
    }
    fn id(&self) -> u64 {
        self.0.parse().unwrap()
    }
}
/// the crate's own tuple grouping
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Pair(u64, u64);
type Pk = (u64, u64);
impl KeyT for Pk {
    type Q = Pk;
    const NAME: &'static str = "(group, key)";
    fn mk(o: u64) -> Self {
        (group_of(o), o)
    }
    fn o(&self) -> u64 {
        self.1
    }
    fn with_q<R>(o: u64, f: impl FnOnce(&Pk) -> R) -> R {
        f(&<Pk as KeyT>::mk(o))
    }
}
impl Grp<Pk> for Tuple2<u64> {
    fn mk(g: u64) -> Self {
        Tuple2::from_ref(&(g, 0u64))
    }
    fn id(&self) -> u64 {
        // the field is private: read it through the order
        let (mut lo, mut hi) = (0u64, 1 << 40);
        while lo < hi {
            let mid = (lo + hi) / 2;
            if <Self as Grp<Pk>>::mk(mid) < *self {
                lo = mid + 1
            } else {
                hi = mid
            }
        }
        lo
    }
}

type A<G> = GroupCount<G>;

struct Groups {
    /// (group, position of its first entry, size)
    v: Vec<(u64, usize, usize)>,
}
fn groups(m: &Model<Pay>) -> Groups {
    let mut v: Vec<(u64, usize, usize)> = Vec::new();
    for (i, e) in m.e.iter().enumerate() {
        let g = group_of(e.0);
        match v.last_mut() {
            Some(l) if l.0 == g => l.2 += 1,
            _ => v.push((g, i, 1)),
        }
    }
    Groups { v }
}
impl Groups {
    fn of(&self, g: u64) -> (usize, usize) {
        match self.v.binary_search_by(|x| x.0.cmp(&g)) {
            Ok(i) => (self.v[i].1, self.v[i].2),
            Err(i) => (self.v.get(i).map_or(0, |x| x.1), 0),
        }
    }
}

fn root_ok<D, K, V, Gr>(ctx: &mut Ctx, h: &Hist<D, K, V, A<Gr>>, gs: &Groups) -> Res
where
    D: Dict<K, V, A<Gr>>,
    K: KeyT,
    V: ValT,
    Gr: Grp<K>,
{
    ctx.add("group_summaries_checked");
    let a = h.d.root_agg();
    let c = a.group_count();
    if c != gs.v.len() || a.is_zero() != gs.v.is_empty() {
        return Err(format!("group count {c} (zero: {}), there are {} groups", a.is_zero(), gs.v.len()));
    }
    let g = a.max_group().map(|(g, n)| (g.id(), n));
    let w = gs.v.last().map(|x| (x.0, x.2));
    if g != w {
        return Err(format!("the largest group and its size are {g:?}, expected {w:?} ({c} groups)"));
    }
    Ok(())
}
fn group_ok<D, K, V, Gr>(ctx: &mut Ctx, h: &Hist<D, K, V, A<Gr>>, gs: &Groups, g: u64) -> Res
where
    D: Dict<K, V, A<Gr>>,
    K: KeyT,
    V: ValT,
    Gr: Grp<K>,
{
    ctx.add("group_sizes_checked");
    let (start, size) = gs.of(g);
    ev("group_size", g, size as u64);
    let n = h.d.visit(ExtractGroupSize::<Gr, K>::new(Gr::mk(g)));
    if n != Some(size) && !(size == 0 && n.is_none()) {
        return Err(format!("group {g} has size {n:?}, expected {size}"));
    }
    ctx.st.max("largest_group", size as u64);
    let mut offs = vec![0, size.wrapping_sub(1), size, size + 1 + ctx.rng.idx(5)];
    for _ in 0..3 {
        offs.push(ctx.rng.idx(size + 1));
    }
    if ctx.rng.chance(1, 4) {
        let near = ctx.rng.idx(size + 2);
        offs.push(ctx.rng.far(near));
        ctx.add("far_offsets");
    }
    for off in offs {
        ctx.add("group_offsets_checked");
        let x = h.d.find((Gr::mk(g), off)).map(|(k, v)| (k.o(), v.get()));
        let w = (off < size).then(|| (h.m.e[start + off].0, h.m.e[start + off].1 .0));
        if x != w {
            return Err(format!("entry {off} of group {g} (size {size}) is {x:?}, expected {w:?}"));
        }
    }
    Ok(())
}
fn rank_ok<D, K, V, Gr>(ctx: &mut Ctx, h: &Hist<D, K, V, A<Gr>>, gs: &Groups, o: u64) -> Res
where
    D: Dict<K, V, A<Gr>>,
    K: KeyT,
    V: ValT,
    Gr: Grp<K>,
{
    let g = group_of(o);
    let (start, size) = gs.of(g);
    let pos = h.m.find(o);
    ctx.add(if pos.is_ok() { "group_ranks_of_present" } else { "group_ranks_of_absent" });
    ev("group_rank", o, g);
    let w = match pos {
        Ok(i) => Ok(Some((g, i - start))),
        Err(i) => Err(Some((g, if size == 0 { 0 } else { i - start }))),
    };
    let k = K::mk(o);
    let id = |r: Option<(Gr, usize)>| r.map(|(g, n)| (g.id(), n));
    let x = match h.d.rank(&k) {
        Ok(r) => Ok(id(r)),
        Err(r) => Err(id(r)),
    };
    if x != w {
        return Err(format!("rank of key #{o} (group {g} of size {size}) is {x:?}, expected {w:?}"));
    }
    Ok(())
}
fn all_ok<D, K, V, Gr>(ctx: &mut Ctx, h: &Hist<D, K, V, A<Gr>>) -> Res
where
    D: Dict<K, V, A<Gr>>,
    K: KeyT,
    V: ValT,
    Gr: Grp<K>,
{
    let gs = groups(&h.m);
    root_ok(ctx, h, &gs)?;
    let total = group_count() + 1;
    let n = h.m.len();
    // all groups if few, otherwise a sample and the neighbourhood of node borders
    if total <= 60 {
        for g in 0..=total {
            group_ok(ctx, h, &gs, g)?;
        }
    } else {
        for _ in 0..40 {
            let g = ctx.rng.below(total + 1);
            group_ok(ctx, h, &gs, g)?;
        }
    }
    for _ in 0..30.min(gs.v.len()) {
        let g = gs.v[ctx.rng.idx(gs.v.len())].0;
        group_ok(ctx, h, &gs, g)?;
    }
    let step = 1 + n / 60;
    let mut i = if step > 1 { ctx.rng.idx(step) } else { 0 };
    while i < n {
        let o = h.m.at(i);
        rank_ok(ctx, h, &gs, o)?;
        if o + 1 < K::MAXO {
            rank_ok(ctx, h, &gs, o + 1)?;
        }
        rank_ok(ctx, h, &gs, o.saturating_sub(1))?;
        i += step;
    }
    rank_ok(ctx, h, &gs, 0)?;
    rank_ok(ctx, h, &gs, K::MAXO - 1)?;
    for _ in 0..10 {
        // group borders
        let k = group_count();
        if k > 1 {
            let s = STARTS.with(|s| s.borrow()[ctx.rng.idx(k as usize - 1)]);
            for o in [s.saturating_sub(1), s, s + 1] {
                if o < K::MAXO {
                    rank_ok(ctx, h, &gs, o)?;
                }
            }
        }
    }
    ctx.add("full_group_audits");
    ctx.note(gs.v.iter().fold(gs.v.len() as u64, |h, x| mix(h, x.2 as u64)));
    Ok(())
}

fn make_groups(ctx: &mut Ctx, dom: u64) -> &'static str {
    let n = ctx.n as u64;
    let style = ctx.rng.below(8);
    let (w, what): (u64, _) = match style {
        0 => (1, "singletons"),
        1 => (2, "pairs"),
        2 => (n / 2, "half nodes"),
        3 => (n, "about one node"),
        4 => (4 * n, "several nodes"),
        5 => (dom / 3 + 1, "three groups"),
        6 => (u64::MAX, "one group"),
        _ => (0, "mixed"),
    };
    let mut v = Vec::new();
    let mut o = 0u64;
    while o < dom && v.len() < 20_000 {
        let x = match w {
            0 => match ctx.rng.below(6) {
                0 | 1 => 1,
                2 => ctx.rng.range(1, 4),
                3 => ctx.rng.range(1, n),
                4 => ctx.rng.range(n, 3 * n),
                _ => ctx.rng.range(3 * n, 12 * n),
            },
            1 => 1,
            u64::MAX => break,
            w => ctx.rng.range(w / 2 + 1, w + w / 2),
        };
        o += x;
        v.push(o);
    }
    STARTS.with(|s| *s.borrow_mut() = v);
    what
}

fn body<D, K, V, Gr>(ctx: &mut Ctx)
where
    D: Dict<K, V, A<Gr>>,
    K: KeyT,
    V: ValT,
    Gr: Grp<K>,
{
    let target = ctx.size().min(if ctx.n > 16 { 5200 } else { 2000 });
    let steps = ctx.steps(300 + target);
    // dense keys, so that groups fill up
    let mut h: Hist<D, K, V, A<Gr>> = Hist::new(ctx, target);
    h.sh.dom = (target as u64 * ctx.rng.pick(&[1, 2, 2, 5]) + 10).min(K::MAXO);
    let what = make_groups(ctx, h.sh.dom.min(60_000));
    if ctx.rng.chance(1, 3) {
        let k = ctx.rng.below(target as u64 + 1) as usize;
        let p = pattern(&mut ctx.rng, k, h.sh.dom);
        h.m.e = p.iter().map(|o| (*o, (V::norm(o * 3), 0))).collect();
        h.d = D::bulk(h.m.e.iter().map(|x| (K::mk(x.0), V::mk(x.1 .0))).collect());
        ctx.add("bulk_built");
    }
    h.foreign = true;
    own(all_ok(ctx, &h));
    for _ in 0..steps {
        if ctx.late() {
            break;
        }
        let n = h.m.len();
        let local = n < 600 || ctx.rng.chance(1, n as u64 / 300);
        let mut o = 0;
        match ctx.rng.below(10) {
            0 | 1 if n > 0 && (n > target / 2 || ctx.rng.chance(1, 3)) => {
                // removal or update by (group, offset)
                let gs = groups(&h.m);
                let (g, start, size) = gs.v[ctx.rng.idx(gs.v.len())];
                let off = match ctx.rng.below(4) {
                    0 => 0,
                    1 => size - 1,
                    2 => size + ctx.rng.idx(2),
                    _ => ctx.rng.idx(size),
                };
                let w = (off < size).then(|| (h.m.e[start + off].0, h.m.e[start + off].1 .0));
                if ctx.rng.chance(2, 3) {
                    ev("remove_in_group", g, off as u64);
                    ctx.add("group_removals");
                    let x = h.d.take((Gr::mk(g), off)).map(|(k, v)| (k.o(), v.get()));
                    crate::check!(x == w, "removing entry {off} of group {g} (size {size}) took {x:?}, expected {w:?}");
                    if off < size {
                        h.m.e.remove(start + off);
                    }
                    own(h.len_ok());
                } else {
                    ev("update_in_group", g, off as u64);
                    ctx.add("group_updates");
                    h.vc += 1;
                    let nv = V::norm(mix(h.vc, 9) >> 16);
                    let x = h.d.find_mut((Gr::mk(g), off)).map(|v| {
                        let old = v.get();
                        *v = V::mk(nv);
                        old
                    });
                    crate::check!(x == w.map(|w| w.1), "mutable access to entry {off} of group {g} (size {size}) reached {x:?}, expected {w:?}");
                    if off < size {
                        h.m.e[start + off].1 .0 = nv;
                    }
                }
                o = w.map_or(0, |w| w.0);
            }
            _ => {
                let (a, r) = h.step(ctx);
                if let Err(e) = r {
                    own(all_ok(ctx, &h));
                    foreign(e);
                }
                let (Act::Ins(x) | Act::Del(x)) = a;
                o = x;
            }
        }
        if local {
            let gs = groups(&h.m);
            own(root_ok(ctx, &h, &gs));
            own(rank_ok(ctx, &h, &gs, o));
            let g = group_of(o);
            own(group_ok(ctx, &h, &gs, g));
            if g > 0 {
                own(group_ok(ctx, &h, &gs, g - 1));
            }
            own(group_ok(ctx, &h, &gs, g + 1));
            let p = h.probe_key(ctx);
            own(rank_ok(ctx, &h, &gs, p));
        }
        if due(ctx, n, 2) && ctx.rng.chance(1, 4) {
            own(all_ok(ctx, &h));
            if let Err(e) = h.contents_ok(ctx, false) {
                crate::fail!("after operations by (group, offset): {e}");
            }
        }
    }
    own(all_ok(ctx, &h));
    own(h.contents_ok(ctx, false));
    if ctx.rng.chance(1, 3) {
        while !h.m.is_empty() && !ctx.late() {
            let n = h.m.len();
            let o = h.m.at(if ctx.rng.chance(1, 2) { n / 2 } else { ctx.rng.idx(n) });
            let r = h.del(ctx, o);
            other(r);
            if n < 50 || ctx.rng.chance(1, n as u64 / 10) {
                own(all_ok(ctx, &h));
            }
        }
        own(all_ok(ctx, &h));
    }
    h.describe(ctx, "groups of", coll_name(D::TREE));
    ctx.desc = format!("{what}: {}", ctx.desc);
}

fn giant<D: Dict<u64, u64, A<G>>>(ctx: &mut Ctx) {
    // large groups, or the aggregates themselves would be too large
    let mut o = 0;
    let w = ctx.rng.pick(&[900u64, 9_000, 70_000, 1_000_000]);
    let v = (0..400)
        .map(|_| {
            o += 1 + ctx.rng.below(2 * w);
            o
        })
        .collect();
    STARTS.with(|s| *s.borrow_mut() = v);
    Hist::<D, u64, u64, A<G>>::giant_session(ctx, true, "groups of", |ctx, h, _| {
        own(all_ok(ctx, h));
    });
}

pub fn episode(ctx: &mut Ctx) {
    if ctx.giant() {
        return one_of!(ctx, 1 => giant::<Map<u64, u64, A<G>>>(ctx), 1 => giant::<Tree<u64, u64, A<G>>>(ctx));
    }
    one_of!(ctx,
        4 => body::<Map<u64, u64, A<G>>, u64, u64, G>(ctx),
        4 => body::<Tree<u64, u64, A<G>>, u64, u64, G>(ctx),
        3 => body::<Map<Pk, u64, A<Tuple2<u64>>>, Pk, u64, Tuple2<u64>>(ctx),
        2 => body::<Tree<Tk, Tv, A<Gs>>, Tk, Tv, Gs>(ctx),
        1 => body::<Map<String, (), A<G>>, String, (), G>(ctx),
    );
}
