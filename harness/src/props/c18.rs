//! C18: visitors and user-defined searches see a faithful search tree.
//! The whole structure is walked through the public visitor and judged node by node; then visitors
//! and searches with scripted choices run against that picture, logging all they are shown.
use super::*;
use crate::core::quietly;
use crate::dict::{snapshot, Map, Node, Snap, Tree};
use crate::one_of;
use crate::types::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sweep_bptree::augment::{RankAugmentation, SearchAugmentation};
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};

/// what one step of a descent was shown
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    keys: Vec<u64>,
    vals: Vec<u64>,
    aggs: Vec<Option<Sum>>,
    leaf: bool,
}
impl Seen {
    fn of(n: &Node<Option<Sum>>) -> Seen {
        Seen { keys: n.keys.clone(), vals: n.vals.clone(), aggs: n.aggs.clone(), leaf: n.leaf }
    }
}
thread_local! {
    static LOG: RefCell<Vec<Seen>> = const { RefCell::new(Vec::new()) };
}
fn log(s: Seen) {
    LOG.with(|l| l.borrow_mut().push(s))
}
fn take_log() -> Vec<Seen> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// a script of choices
#[derive(Clone, Debug)]
pub struct Way {
    at: [usize; 16],
    pos: usize,
    /// end the descent at this level: 0 stop with nothing, 1 stop with a result
    stop: Option<(usize, u8)>,
}
impl Way {
    fn random(rng: &mut Rng, depth: usize) -> Way {
        let mut at = [0; 16];
        let skew = rng.below(4);
        for x in &mut at {
            *x = match skew {
                0 => 0,
                1 => usize::MAX,
                _ => rng.idx(1 << 30),
            };
            if rng.chance(1, 5) {
                *x = rng.idx(1 << 30);
            }
        }
        let stop = rng.chance(1, 3).then(|| (rng.idx(depth + 1), rng.below(2) as u8));
        Way { at, pos: 0, stop }
    }
    fn choice(&self, i: usize, n: usize) -> usize {
        let x = self.at[i.min(15)];
        if x == usize::MAX {
            n.saturating_sub(1)
        } else {
            x % n.max(1)
        }
    }
}

/// user aggregate whose search follows the script
#[derive(Clone, Debug, Default)]
pub struct Fol {
    s: Sum,
}
impl<K: KeyT, V: ValT> Augmentation<K, V> for Fol {
    fn from_inner(k: &[K], a: &[Self]) -> Self {
        check!(k.len() + 1 == a.len(), "an aggregate is computed from {} separators and {} child aggregates", k.len(), a.len());
        Fol { s: a.iter().fold(Sum::default(), |s, x| s.cat(x.s)) }
    }
    fn from_leaf(k: &[K], v: &[V]) -> Self {
        Fol { s: k.iter().zip(v).fold(Sum::default(), |s, (k, v)| s.cat(Sum::one(k.o(), v.get()))) }
    }
}
impl<K: KeyT, V: ValT> AggT<K, V> for Fol {
    const NAME: &'static str = "scripted";
    fn sum(&self) -> Option<Sum> {
        Some(self.s)
    }
}
impl<K: KeyT, V: ValT> SearchAugmentation<K, V> for Fol {
    type Query = Way;
    fn locate_in_leaf(q: Way, k: &[K], v: &[V]) -> Option<usize> {
        log(Seen {
            keys: k.iter().map(|k| k.o()).collect(),
            vals: v.iter().map(|v| v.get()).collect(),
            aggs: Vec::new(),
            leaf: true,
        });
        if q.stop.is_some_and(|s| s.0 == q.pos) || k.is_empty() {
            return None;
        }
        Some(q.choice(q.pos, k.len()))
    }
    fn locate_in_inner(mut q: Way, k: &[K], a: &[Self]) -> Option<(usize, Way)> {
        log(Seen {
            keys: k.iter().map(|k| k.o()).collect(),
            vals: Vec::new(),
            aggs: a.iter().map(|a| Some(a.s)).collect(),
            leaf: false,
        });
        if q.stop.is_some_and(|s| s.0 == q.pos) {
            return None;
        }
        let c = q.choice(q.pos, a.len());
        q.pos += 1;
        Some((c, q))
    }
}
/// how many entries, and which sum of key numbers, precede a key
impl<K: KeyT, V: ValT> RankAugmentation<K, V> for Fol {
    type Rank = (u64, Sum, u64);
    fn initial_value() -> Self::Rank {
        (0, Sum::default(), 0)
    }
    fn fold_inner(_: &K, r: Self::Rank, a: &[Self]) -> Self::Rank {
        (r.0 + a.iter().map(|a| a.s.n).sum::<u64>(), a.iter().fold(r.1, |s, a| s.cat(a.s)), r.2 + 1)
    }
    fn fold_leaf(_: &K, r: Self::Rank, at: Result<usize, usize>, keys: &[K]) -> Result<Self::Rank, Self::Rank> {
        log(Seen { keys: keys.iter().map(|k| k.o()).collect(), vals: Vec::new(), aggs: Vec::new(), leaf: true });
        at.map(|i| (r.0 + i as u64, r.1, r.2)).map_err(|i| (r.0 + i as u64, r.1, r.2))
    }
}

/// visitor that follows the script
struct Scripted<'a> {
    w: &'a Way,
    pos: usize,
    leaf_says: bool,
}
const TOKEN: u64 = 0x5eed;
impl<K: KeyT, V: ValT, A: AggT<K, V>> DescendVisit<K, V, A> for Scripted<'_> {
    type Result = (u64, usize);
    fn visit_inner(&mut self, k: &[K], a: &[A]) -> DescendVisitResult<(u64, usize)> {
        log(Seen {
            keys: k.iter().map(|k| k.o()).collect(),
            vals: Vec::new(),
            aggs: a.iter().map(|a| a.sum()).collect(),
            leaf: false,
        });
        match self.w.stop {
            Some((p, 0)) if p == self.pos => return DescendVisitResult::Cancel,
            Some((p, _)) if p == self.pos => return DescendVisitResult::Complete((TOKEN, p)),
            _ => {}
        }
        let c = self.w.choice(self.pos, a.len());
        self.pos += 1;
        DescendVisitResult::GoDown(c)
    }
    fn visit_leaf(&mut self, k: &[K], v: &[V]) -> Option<(u64, usize)> {
        log(Seen {
            keys: k.iter().map(|k| k.o()).collect(),
            vals: v.iter().map(|v| v.get()).collect(),
            aggs: Vec::new(),
            leaf: true,
        });
        self.leaf_says.then_some((TOKEN, 99))
    }
}
/// goes one beyond the children that have an aggregate, at some level
struct Beyond<'a> {
    w: &'a Way,
    pos: usize,
    level: usize,
    asked: bool,
}
impl<K: KeyT, V: ValT, A: AggT<K, V>> DescendVisit<K, V, A> for &mut Beyond<'_> {
    type Result = ();
    fn visit_inner(&mut self, _: &[K], a: &[A]) -> DescendVisitResult<()> {
        self.pos += 1;
        if self.pos > self.level {
            self.asked = true;
            return DescendVisitResult::GoDown(a.len());
        }
        DescendVisitResult::GoDown(self.w.choice(self.pos - 1, a.len()))
    }
    fn visit_leaf(&mut self, _: &[K], _: &[V]) -> Option<()> {
        Some(())
    }
}

type Picture = Snap<Option<Sum>>;

/// every promise about the structure shown to visitors
fn judge<D, K, V, A>(ctx: &mut Ctx, h: &Hist<D, K, V, A>) -> Picture
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: AggT<K, V>,
{
    let m = &h.m;
    let s: Picture = snapshot(&h.d, |a: &A| a.sum(), 4 * m.len() + 64);
    ctx.add("structures_judged");
    ctx.st.add("nodes_judged", s.nodes.len() as u64);
    ctx.st.shape(s.hash());
    ctx.st.max("deepest_tree", s.depth() as u64);
    // entries reached through all children, in order
    let mut i = 0;
    let mut bad = None;
    for l in s.leaves() {
        check!(l.keys.len() == l.vals.len(), "a leaf shows {} keys and {} values", l.keys.len(), l.vals.len());
        for (k, v) in l.keys.iter().zip(&l.vals) {
            if m.e.get(i).map(|e| (e.0, e.1 .0)) != Some((*k, *v)) && bad.is_none() {
                bad = Some((i, *k, *v));
            }
            i += 1;
        }
    }
    if i != m.len() && bad.is_none() {
        bad = Some((i, 0, 0));
    }
    if let Some((i, k, v)) = bad {
        // lost or altered altogether, or only hidden from visitors?
        let whole = {
            let mut it = h.d.iter();
            m.e.iter().all(|e| it.next().is_some_and(|(k, v)| (k.o(), v.get()) == (e.0, e.1 .0))) && it.next().is_none()
        };
        if !whole {
            foreign(format!("entries were lost or altered, iteration agrees: entry {i} of {}", m.len()));
        }
        crate::fail!(
            "the leaves reached through all children: entry {i} of {} is (#{k}, {v}), expected {:?}",
            m.len(),
            m.e.get(i)
        );
    }
    // bounds from above: (node, lower, upper)
    let mut todo = vec![(0usize, None::<u64>, None::<u64>)];
    while let Some((n, lo, hi)) = todo.pop() {
        let x = &s.nodes[n];
        for w in x.keys.windows(2) {
            check!(
                w[0] < w[1],
                "{} keys are not strictly ascending: #{} then #{}",
                if x.leaf { "leaf" } else { "separator" },
                w[0],
                w[1]
            );
        }
        if x.leaf {
            for k in &x.keys {
                check!(
                    lo.map_or(true, |l| l <= *k) && hi.map_or(true, |u| *k < u),
                    "entry #{k} lies below a child bounded by {lo:?} (included) and {hi:?} (excluded)"
                );
            }
            continue;
        }
        check!(
            x.aggs.len() == x.keys.len() + 1,
            "a visitor is shown {} separators and {} aggregates",
            x.keys.len(),
            x.aggs.len()
        );
        for (c, kid) in x.kids.iter().enumerate() {
            let l = if c == 0 { lo } else { Some(x.keys[c - 1]) };
            let u = if c == x.keys.len() { hi } else { Some(x.keys[c]) };
            todo.push((*kid, l, u));
        }
    }
    s
}
/// the nodes a script passes, and the chosen entry
fn path(s: &Picture, w: &Way) -> (Vec<Seen>, Option<(u64, u64)>) {
    let mut v = Vec::new();
    let mut n = 0;
    let mut pos = 0;
    loop {
        let x = &s.nodes[n];
        v.push(Seen::of(x));
        let stop = w.stop.is_some_and(|p| p.0 == pos);
        if x.leaf {
            if stop || x.keys.is_empty() {
                return (v, None);
            }
            let c = w.choice(pos, x.keys.len());
            return (v, Some((x.keys[c], x.vals[c])));
        }
        if stop {
            return (v, None);
        }
        n = x.kids[w.choice(pos, x.kids.len())];
        pos += 1;
    }
}
fn differ(what: &str, got: &[Seen], want: &[Seen]) {
    if got == want {
        return;
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    crate::fail!(
        "{what}: descent of {} steps instead of {}; step {i} is shown {:?}, following the choices leads to {:?}",
        got.len(),
        want.len(),
        got.get(i),
        want.get(i)
    );
}

/// a visitor with scripted choices, against the picture
fn visit<D, K, V, A>(ctx: &mut Ctx, d: &D, s: &Picture)
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: AggT<K, V>,
{
    let w = Way::random(&mut ctx.rng, s.depth());
    let says = ctx.rng.chance(3, 4);
    take_log();
    let r = d.visit(Scripted { w: &w, pos: 0, leaf_says: says });
    let got = take_log();
    let (want, _) = path(s, &w);
    let end = want.last().map(|x| x.leaf).unwrap_or(false);
    // the script's stop means nothing to a visitor at a leaf
    let exp = if end {
        says.then_some((TOKEN, 99))
    } else {
        match w.stop {
            Some((p, 1)) => Some((TOKEN, p)),
            _ => None,
        }
    };
    differ("a visitor", &got, &want);
    check!(r == exp, "a visitor that decided {exp:?} got {r:?}");
    ctx.add("visitors");
    ctx.st.add("descent_steps", got.len() as u64);
    if ctx.rng.chance(1, 6) && s.depth() > 1 {
        // one aggregate per child: beyond them there is no child
        let mut b = Beyond { w: &w, pos: 0, level: ctx.rng.idx(s.depth() - 1), asked: false };
        let r = quietly(|| catch_unwind(AssertUnwindSafe(|| d.visit(&mut b))));
        check!(!b.asked || r.is_err(), "a visitor can go down to a child for which it was shown no aggregate");
        ctx.add("visits_beyond");
    }
}

type Search<D, K, V, A> = fn(&mut Ctx, &mut Hist<D, K, V, A>, &Picture);

fn body<D, K, V, A>(ctx: &mut Ctx, search: Search<D, K, V, A>, again: Option<fn(&D) -> D>)
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: AggT<K, V>,
{
    let target = ctx.size();
    let mut h: Hist<D, K, V, A> = Hist::new(ctx, target);
    if ctx.rng.chance(1, 4) {
        let c = ctx.rng.idx(target + 1);
        let p = pattern(&mut ctx.rng, c, K::MAXO);
        h.d = D::bulk(p.iter().map(|o| (K::mk(*o), V::mk(V::norm(o * 3)))).collect());
        h.m.e = p.iter().map(|o| (*o, (V::norm(o * 3), 0))).collect();
        ctx.add("bulk_loads");
    }
    h.foreign = true;
    let steps = if ctx.miri() { 40 + target } else { ctx.steps(400 + 4 * target) };
    for _ in 0..steps {
        if ctx.late() {
            break;
        }
        let (_, r) = h.step(ctx);
        other(r);
        if ctx.rng.chance(1, 3000) && h.d.clear() {
            h.m = Model::new();
            ctx.add("clears");
        }
        if let Some(c) = again {
            if ctx.rng.chance(1, 1500) {
                h.d = c(&h.d);
                ctx.add("clones");
            }
        }
        if !due(ctx, h.m.len(), 4) {
            continue;
        }
        let mut s = judge(ctx, &h);
        for _ in 0..ctx.rng.range(1, 6) {
            visit(ctx, &h.d, &s);
        }
        for _ in 0..ctx.rng.range(1, 5) {
            let n = h.m.len();
            search(ctx, &mut h, &s);
            if h.m.len() != n {
                s = judge(ctx, &h);
            }
        }
    }
    judge(ctx, &h);
    h.describe(ctx, "structure seen by visitors in", coll_name(D::TREE));
}

/// what is there after an operation through a search
fn settled<D, K, V, A>(ctx: &mut Ctx, h: &Hist<D, K, V, A>, what: &str)
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: AggT<K, V>,
{
    own(h.len_ok().and_then(|_| h.contents_ok(ctx, false)).map_err(|e| format!("after {what}: {e}")));
}

fn changed<D, K, V, A>(ctx: &mut Ctx, h: &mut Hist<D, K, V, A>, k: u64, v: u64, what: &str)
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: AggT<K, V>,
{
    h.m.get_mut(k).unwrap().0 = v;
    settled(ctx, h, what);
    // aggregates are not told of changes made in place: say it by a replacement
    let tag = h.m.get(k).unwrap().1;
    base_op(true, || h.d.insert(K::mk_tag(k, tag), V::mk(v)));
    if h.m.len() < 3000 {
        if let Err(e) = h.contents_ok(ctx, false) {
            foreign(e);
        }
    }
}

fn scripted<D, K, V>(ctx: &mut Ctx, h: &mut Hist<D, K, V, Fol>, s: &Picture)
where
    D: Dict<K, V, Fol>,
    K: KeyT,
    V: ValT,
{
    if ctx.rng.chance(1, 4) {
        // what precedes a key, by the user's own rank
        let o = h.probe_key(ctx);
        let k = K::mk(o);
        take_log();
        let r = h.d.rank(&k);
        let got = take_log();
        ctx.add("user_ranks");
        let at = h.m.find(o);
        let (i, want) = match at {
            Ok(i) => (i, true),
            Err(i) => (i, false),
        };
        let (is, (n, sum, depth)) = match r {
            Ok(x) => (true, x),
            Err(x) => (false, x),
        };
        check!(
            is == want && n == i as u64,
            "a user-defined rank of #{o} ({}) counts {n} entries before it, there are {i}",
            if want { "present" } else { "absent" }
        );
        check!((depth as usize) < s.depth(), "a user-defined rank folded {depth} levels of a tree of {}", s.depth());
        check!(got.len() == 1, "the leaf part of a user-defined rank ran {} times", got.len());
        let leaf = &got[0].keys;
        let first = i - (n - sum.n) as usize;
        let fold = h.m.e[..first].iter().fold(Sum::default(), |s, e| s.cat(Sum::one(e.0, e.1 .0)));
        check!(sum == fold, "a user-defined rank of #{o} folded other entries than the {first} before its leaf");
        check!(
            s.leaves().any(|l| &l.keys == leaf) && (leaf.is_empty() || h.m.find(leaf[0]) == Ok(first)),
            "a user-defined rank is shown keys {leaf:?}, which are not those of the leaf after {first} entries"
        );
        return;
    }
    let w = Way::random(&mut ctx.rng, s.depth());
    let (want, e) = path(s, &w);
    take_log();
    ctx.add("scripted_searches");
    match ctx.rng.below(4) {
        0 | 1 => {
            ev("find", 0, 0);
            let g = h.d.find(w).map(|x| (x.0.o(), x.1.get()));
            differ("a search", &take_log(), &want);
            check!(g == e, "lookup through a search that selects {e:?} gives {g:?}");
        }
        2 => {
            ev("find_mut", 0, 0);
            let v = V::norm(ctx.rng.below(1 << 40));
            let g = h.d.find_mut(w).map(|x| {
                let old = x.get();
                *x = V::mk(v);
                old
            });
            differ("a search", &take_log(), &want);
            check!(g == e.map(|e| e.1), "mutation through a search that selects {e:?} meets value {g:?}");
            if let Some(e) = e {
                changed(ctx, h, e.0, v, "a mutation through a search");
            }
        }
        _ => {
            ev("take", 0, 0);
            let g = h.d.take(w).map(|x| (x.0.o(), x.1.get()));
            differ("a search", &take_log(), &want);
            check!(g == e, "removal through a search that selects {e:?} gives {g:?}");
            if let Some(e) = e {
                h.m.remove(e.0);
                ctx.add("removals_through_searches");
            }
            settled(ctx, h, "a removal through a search");
        }
    }
}

fn finds<D, K, V, A>(ctx: &mut Ctx, h: &mut Hist<D, K, V, A>, _: &Picture)
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: AggT<K, V> + SearchAugmentation<K, V, Query = Find>,
{
    let n = h.m.len() as u64;
    let q = match ctx.rng.below(6) {
        0 | 1 => Find::Nth(ctx.rng.below(n + 2)),
        2 => Find::NthBack(ctx.rng.below(n + 2)),
        3 => Find::Best,
        _ => Find::ByKey(h.probe_key(ctx)),
    };
    let p = |e: &(u64, Pay)| (e.0, e.1 .0);
    let e = match q {
        Find::Nth(i) => h.m.e.get(i as usize).map(p),
        Find::NthBack(i) => n.checked_sub(i + 1).and_then(|i| h.m.e.get(i as usize)).map(p),
        Find::Best => {
            let b = h.m.e.iter().map(|e| e.1 .0).max();
            h.m.e.iter().find(|e| Some(e.1 .0) == b).map(p)
        }
        Find::ByKey(o) => h.m.e.iter().find(|e| e.0 == o).map(p),
    };
    let e = if n == 0 { None } else { e };
    ctx.add("searches");
    match ctx.rng.below(4) {
        0 | 1 => {
            let g = h.d.find(q).map(|x| (x.0.o(), x.1.get()));
            check!(g == e, "a search for {q:?} gives {g:?}, expected {e:?} ({n} entries)");
        }
        2 => {
            let v = V::norm(ctx.rng.below(1 << 40));
            let g = h.d.find_mut(q).map(|x| {
                let old = x.get();
                *x = V::mk(v);
                old
            });
            check!(g == e.map(|e| e.1), "mutation through a search for {q:?} meets {g:?}, expected {e:?}");
            if let Some(e) = e {
                changed(ctx, h, e.0, v, "a mutation through a search");
            }
        }
        _ => {
            let g = h.d.take(q).map(|x| (x.0.o(), x.1.get()));
            check!(g == e, "removal through a search for {q:?} gives {g:?}, expected {e:?} ({n} entries)");
            if let Some(e) = e {
                h.m.remove(e.0);
                ctx.add("removals_through_searches");
            }
            settled(ctx, h, "a removal through a search");
        }
    }
}
fn none<D, K, V, A>(_: &mut Ctx, _: &mut Hist<D, K, V, A>, _: &Picture) {}
fn again<K: KeyT, V: ValT + Clone, A: Augmentation<K, V>>(d: &Tree<K, V, A>) -> Tree<K, V, A> {
    d.clone()
}

fn giant<D: Dict<u64, u64, Fold>>(ctx: &mut Ctx) {
    Hist::<D, u64, u64, Fold>::giant_session(ctx, true, "visitors over", |ctx, h, _| {
        let s = judge(ctx, h);
        for _ in 0..300 {
            visit(ctx, &h.d, &s);
        }
        for _ in 0..100 {
            finds(ctx, h, &s);
        }
        judge(ctx, h);
    });
}

pub fn episode(ctx: &mut Ctx) {
    if ctx.giant() {
        return one_of!(ctx, 1 => giant::<Map<u64, u64, Fold>>(ctx), 1 => giant::<Tree<u64, u64, Fold>>(ctx));
    }
    one_of!(ctx,
        4 => body::<Tree<u64, u64, Fol>, u64, u64, Fol>(ctx, scripted_fresh, Some(again)),
        2 => body::<Map<u64, u64, Fol>, u64, u64, Fol>(ctx, scripted_fresh, None),
        2 => body::<Tree<String, String, Fol>, String, String, Fol>(ctx, scripted_fresh, Some(again)),
        3 => body::<Tree<u64, u64, Fold>, u64, u64, Fold>(ctx, finds, Some(again)),
        2 => body::<Tree<Tk, Tv, HeapFold>, Tk, Tv, HeapFold>(ctx, finds, Some(again)),
        2 => body::<Map<String, u64, HeapFold>, String, u64, HeapFold>(ctx, finds, None),
        1 => body::<Map<(u32, u16), Big, Fold>, (u32, u16), Big, Fold>(ctx, finds, None),
        1 => body::<Tree<u64, u64, ()>, u64, u64, ()>(ctx, none, Some(again)),
        1 => body::<Tree<u8, u64, Fol>, u8, u64, Fol>(ctx, scripted_fresh, Some(again)),
    );
}
/// one search on a picture taken for it
fn scripted_fresh<D, K, V>(ctx: &mut Ctx, h: &mut Hist<D, K, V, Fol>, _: &Picture)
where
    D: Dict<K, V, Fol>,
    K: KeyT,
    V: ValT,
{
    let s = judge(ctx, h);
    scripted(ctx, h, &s)
}
