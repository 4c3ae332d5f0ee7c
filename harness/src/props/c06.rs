//! C06: aggregates always equal a recomputation over the current entries.
use super::*;
use crate::dict::{snapshot, Map, Tree};
use crate::types::*;
use crate::one_of;
use sweep_bptree::augment::SearchAugmentation;

fn whole(m: &Model<Pay>) -> Sum {
    m.e.iter().fold(Sum::default(), |s, x| s.cat(Sum::one(x.0, x.1 .0)))
}

fn root_ok<D, K, V, A>(ctx: &mut Ctx, h: &Hist<D, K, V, A>, what: &str)
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: AggT<K, V>,
{
    ctx.add("root_aggregates_checked");
    let agg = h.d.root_agg();
    if let Some(f) = agg.flaw() {
        crate::fail!("{what}: the whole-collection aggregate was computed from wrong parts: {f}");
    }
    let got = agg.sum().unwrap();
    let want = whole(&h.m);
    if got != want {
        // is it the aggregate that is wrong, or the contents?
        let now = h.d.iter().fold(Sum::default(), |s, x| s.cat(Sum::one(x.0.o(), x.1.get())));
        check!(
            got == now,
            "{what}: the whole-collection aggregate is {got:?}, recomputed over the {} current entries it is {now:?}",
            h.m.len()
        );
        foreign(format!("{what}: contents differ from the dictionary"));
    }
    if h.m.is_empty() {
        ctx.add("empty_aggregates_checked");
        check!(got == A::default().sum().unwrap(), "{what}: the empty collection has aggregate {got:?}");
    }
}

fn subtrees_ok<D, K, V, A>(ctx: &mut Ctx, h: &Hist<D, K, V, A>, what: &str)
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: AggT<K, V>,
{
    let see = |a: &A| match a.flaw() {
        None => a.sum().unwrap(),
        Some(f) => crate::fail!("{what}: an aggregate shown during a descent was computed from wrong parts: {f}"),
    };
    let s = snapshot(&h.d, see, 4 * h.m.len() + 64);
    ctx.st.shape(s.hash());
    ctx.st.max("deepest_tree", s.depth() as u64);
    // children come after their parent in preorder
    let mut sums: Vec<Sum> = vec![Sum::default(); s.nodes.len()];
    for i in (0..s.nodes.len()).rev() {
        let n = &s.nodes[i];
        if n.leaf {
            sums[i] = n.keys.iter().zip(&n.vals).fold(Sum::default(), |s, (k, v)| s.cat(Sum::one(*k, *v)));
        } else {
            for (c, kid) in n.kids.iter().enumerate() {
                ctx.add("subtree_aggregates_checked");
                check!(
                    n.aggs[c] == sums[*kid],
                    "{what}: at depth {} the aggregate shown for child {c} of {} is {:?}, recomputed over the {} entries below it is {:?}",
                    n.level,
                    n.kids.len(),
                    n.aggs[c],
                    sums[*kid].n,
                    sums[*kid]
                );
            }
            sums[i] = n.kids.iter().fold(Sum::default(), |s, k| s.cat(sums[*k]));
        }
    }
    ctx.add("descents_audited");
    ctx.note(s.hash());
}

fn body<D, K, V, A>(ctx: &mut Ctx, copy: Option<fn(&D) -> D>)
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: AggT<K, V> + SearchAugmentation<K, V, Query = Find>,
{
    let target = ctx.size();
    let steps = ctx.steps(400 + 2 * target);
    let mut h: Hist<D, K, V, A> = Hist::new(ctx, target);
    h.foreign = true;
    root_ok(ctx, &h, "new");
    if ctx.rng.chance(1, 4) {
        let k = ctx.rng.below(target as u64 + 1) as usize;
        let p = pattern(&mut ctx.rng, k, K::MAXO);
        h.m.e = p.iter().map(|o| (*o, (V::norm(o * 3), 0))).collect();
        h.d = D::bulk(h.m.e.iter().map(|x| (K::mk(x.0), V::mk(x.1 .0))).collect());
        ctx.add("bulk_built");
        root_ok(ctx, &h, "bulk load");
        subtrees_ok(ctx, &h, "bulk load");
    }
    for _ in 0..steps {
        if ctx.late() {
            break;
        }
        let mut what = "insertion";
        match ctx.rng.below(40) {
            0..=2 if !h.m.is_empty() => {
                // value replacement
                let o = h.m.at(ctx.rng.idx(h.m.len()));
                what = "value replacement";
                let r = h.ins(ctx, o);
                other(r);
            }
            3 if !h.m.is_empty() => {
                // removal through the search path
                let i = ctx.rng.idx(h.m.len());
                what = "removal by search";
                let o = h.m.at(i);
                ev("remove_by_augmentation", o, 0);
                ctx.add("removals_by_search");
                let got = h.d.take(Find::Nth(i as u64)).map(|x| x.0.o());
                if got != Some(o) {
                    subtrees_ok(ctx, &h, what);
                    foreign(format!("removal of entry {i} took {got:?}, expected #{o}"));
                }
                h.m.remove(o);
            }
            4 => {
                let o = h.probe_key(ctx);
                what = "removal";
                let r = h.del(ctx, o);
                other(r);
            }
            5 if ctx.rng.chance(1, 40) => {
                if h.d.clear() {
                    what = "clear";
                    h.m = Model::new();
                    ctx.add("clears");
                }
            }
            6 if ctx.rng.chance(1, 10) => {
                if let Some(c) = copy {
                    what = "clone";
                    let d = c(&h.d);
                    ctx.add("clones");
                    if ctx.rng.chance(1, 2) {
                        h.d = d;
                    } else {
                        let old = std::mem::replace(&mut h.d, d);
                        let new = std::mem::replace(&mut h.d, old);
                        drop(new);
                    }
                }
            }
            _ => {
                let (a, r) = h.step(ctx);
                if let Act::Del(_) = a {
                    what = "removal";
                }
                if let Err(e) = r {
                    root_ok(ctx, &h, what);
                    subtrees_ok(ctx, &h, what);
                    foreign(e);
                }
            }
        }
        let n = h.m.len();
        if n < 150 || ctx.rng.chance(1, n as u64 / 100) || what == "clear" || what == "clone" {
            root_ok(ctx, &h, what);
        }
        let every = if n < 8 * ctx.n { 3 } else { n as u64 / 24 };
        if ctx.rng.chance(1, every) || what == "clone" {
            subtrees_ok(ctx, &h, what);
        }
    }
    root_ok(ctx, &h, "end");
    subtrees_ok(ctx, &h, "end");
    if ctx.rng.chance(1, 3) {
        while !h.m.is_empty() && !ctx.late() {
            let n = h.m.len();
            let o = h.m.at(if ctx.rng.chance(1, 2) { 0 } else { n - 1 });
            let r = h.del(ctx, o);
            other(r);
            if n < 100 || ctx.rng.chance(1, n as u64 / 20) {
                root_ok(ctx, &h, "draining");
                subtrees_ok(ctx, &h, "draining");
            }
        }
        root_ok(ctx, &h, "drained");
    }
    h.describe(ctx, "aggregates of", coll_name(D::TREE));
}

fn tree<K: KeyT, V: ValT + Clone, A: AggT<K, V> + SearchAugmentation<K, V, Query = Find>>(ctx: &mut Ctx) {
    body::<Tree<K, V, A>, K, V, A>(ctx, Some(|d| d.clone()))
}
fn giant<D, A>(ctx: &mut Ctx)
where
    D: Dict<u64, u64, A>,
    A: AggT<u64, u64>,
{
    Hist::<D, u64, u64, A>::giant_session(ctx, true, "aggregates of", |ctx, h, what| {
        root_ok(ctx, h, what);
        subtrees_ok(ctx, h, what);
    });
}

pub fn episode(ctx: &mut Ctx) {
    if ctx.giant() {
        return one_of!(ctx,
            1 => giant::<Map<u64, u64, Fold>, Fold>(ctx),
            1 => giant::<Tree<u64, u64, Fold>, Fold>(ctx),
            1 => giant::<Tree<u64, u64, Sep>, Sep>(ctx),
            1 => giant::<Tree<u64, u64, HeapFold>, HeapFold>(ctx),
        );
    }
    one_of!(ctx,
        4 => body::<Map<u64, u64, Fold>, u64, u64, Fold>(ctx, None),
        3 => tree::<u64, u64, Fold>(ctx),
        4 => tree::<u64, u64, Sep>(ctx),
        1 => tree::<Tk, Tv, Sep>(ctx),
        3 => tree::<Tk, Tv, HeapFold>(ctx),
        2 => body::<Map<String, u64, HeapFold>, String, u64, HeapFold>(ctx, None),
        1 => tree::<u8, u64, Fold>(ctx),
        1 => tree::<(), u64, HeapFold>(ctx),
    );
}
