//! C07: positional access and rank are exact for counted collections.
use super::*;
use crate::dict::{Map, Tree};
use crate::one_of;
use crate::types::*;
use sweep_bptree::augment::count::Count;

fn at_ok<D, K, V>(ctx: &mut Ctx, h: &Hist<D, K, V, Count>, i: usize) -> Res
where
    D: Dict<K, V, Count>,
    K: KeyT,
    V: ValT,
{
    ctx.add("positions_probed");
    ev("position", i as u64, h.m.len() as u64);
    let g = h.d.find(i).map(|(k, v)| (k.o(), v.get()));
    let w = h.m.e.get(i).map(|x| (x.0, x.1 .0));
    if g != w {
        return Err(format!("position {i} of {} is {g:?}, the entry there is {w:?}", h.m.len()));
    }
    Ok(())
}
fn rank_ok<D, K, V>(ctx: &mut Ctx, h: &Hist<D, K, V, Count>, o: u64) -> Res
where
    D: Dict<K, V, Count>,
    K: KeyT,
    V: ValT,
{
    let w = h.m.find(o);
    ctx.add(if w.is_ok() { "ranks_of_present" } else { "ranks_of_absent" });
    ev("rank", o, h.m.len() as u64);
    let k = K::mk(o);
    let g: Result<usize, usize> = h.d.rank(&k);
    if g != w {
        return Err(format!("rank of key #{o} is {g:?}, expected {w:?} ({} entries)", h.m.len()));
    }
    Ok(())
}
fn all_ok<D, K, V>(ctx: &mut Ctx, h: &Hist<D, K, V, Count>) -> Res
where
    D: Dict<K, V, Count>,
    K: KeyT,
    V: ValT,
{
    let n = h.m.len();
    let s = if n > 2000 { 9 } else { 1 };
    let mut i = 0;
    while i < n + 3 {
        at_ok(ctx, h, i)?;
        if i < n {
            let o = h.m.at(i);
            rank_ok(ctx, h, o)?;
            if o + 1 < K::MAXO {
                rank_ok(ctx, h, o + 1)?;
            }
        }
        i += if s > 1 { 1 + ctx.rng.idx(s) } else { 1 };
    }
    at_ok(ctx, h, usize::MAX)?;
    for _ in 0..4 {
        let near = ctx.rng.idx(n + 2);
        let i = ctx.rng.far(near);
        ctx.add("far_positions");
        at_ok(ctx, h, i)?;
    }
    rank_ok(ctx, h, 0)?;
    rank_ok(ctx, h, K::MAXO - 1)?;
    let c = h.d.root_agg().count();
    if c != n {
        return Err(format!("the count aggregate is {c} with {n} entries"));
    }
    ctx.add("full_position_audits");
    Ok(())
}

fn body<D, K, V>(ctx: &mut Ctx)
where
    D: Dict<K, V, Count>,
    K: KeyT,
    V: ValT,
{
    let target = ctx.size();
    let steps = ctx.steps(500 + 3 * target);
    let mut h: Hist<D, K, V, Count> = Hist::new(ctx, target);
    if ctx.rng.chance(1, 4) {
        let k = ctx.rng.below(target as u64 + 1) as usize;
        let p = pattern(&mut ctx.rng, k, K::MAXO);
        h.m.e = p.iter().map(|o| (*o, (V::norm(o * 3), 0))).collect();
        h.d = D::bulk(h.m.e.iter().map(|x| (K::mk(x.0), V::mk(x.1 .0))).collect());
        ctx.add("bulk_built");
    }
    h.foreign = true;
    own(all_ok(ctx, &h));
    for _ in 0..steps {
        if ctx.late() {
            break;
        }
        let n = h.m.len();
        let mut o = 0;
        match ctx.rng.below(10) {
            0 | 1 if n > 0 && (n > target / 2 || ctx.rng.chance(1, 3)) => {
                // positional removal
                let i = match ctx.rng.below(5) {
                    0 => 0,
                    1 => n - 1,
                    2 if ctx.rng.chance(1, 2) => n + ctx.rng.idx(3),
                    2 => {
                        let near = ctx.rng.idx(n);
                        ctx.rng.far(near)
                    }
                    _ => ctx.rng.idx(n),
                };
                ev("remove_at", i as u64, n as u64);
                ctx.add("positional_removals");
                let g = h.d.take(i).map(|(k, v)| (k.o(), v.get()));
                let w = if i < n { Some(h.m.e.remove(i)) } else { None }.map(|x| (x.0, x.1 .0));
                crate::check!(g == w, "removal of position {i} of {n} took {g:?}, the entry there is {w:?}");
                own(h.len_ok());
                o = w.map_or(0, |w| w.0);
                own(h.get_ok(ctx, o));
            }
            2 => {
                // positional update
                let mut i = ctx.rng.below(n as u64 + 2) as usize;
                if ctx.rng.chance(1, 12) {
                    i = ctx.rng.far(i);
                }
                h.vc += 1;
                let nv = V::norm(mix(h.vc, 9) >> 16);
                ev("update_at", i as u64, nv);
                ctx.add("positional_updates");
                let g = h.d.find_mut(i).map(|v| {
                    let old = v.get();
                    *v = V::mk(nv);
                    old
                });
                let w = h.m.e.get_mut(i).map(|x| std::mem::replace(&mut x.1 .0, nv));
                crate::check!(g == w, "mutable access to position {i} of {n} reached {g:?}, the value there is {w:?}");
                if i < n {
                    o = h.m.at(i);
                    own(h.get_ok(ctx, o));
                }
            }
            _ => {
                let (a, r) = h.step(ctx);
                if let Err(e) = r {
                    own(all_ok(ctx, &h));
                    foreign(e);
                }
                let (Act::Ins(x) | Act::Del(x)) = a;
                o = x;
            }
        }
        own(rank_ok(ctx, &h, o));
        let n = h.m.len();
        let i = match h.m.find(o) {
            Ok(i) | Err(i) => i,
        };
        for i in [i.checked_sub(1), Some(i), Some(i + 1)].into_iter().flatten() {
            own(at_ok(ctx, &h, i));
        }
        for _ in 0..2 {
            let p = h.probe_key(ctx);
            own(rank_ok(ctx, &h, p));
            let i = ctx.rng.below(n as u64 + 2) as usize;
            own(at_ok(ctx, &h, i));
        }
        if due(ctx, n, 1) && ctx.rng.chance(1, 2) {
            own(all_ok(ctx, &h));
            if let Err(e) = h.contents_ok(ctx, false) {
                // a positional update or removal may have hit a second entry
                crate::fail!("after positional operations: {e}");
            }
        }
    }
    own(all_ok(ctx, &h));
    own(h.contents_ok(ctx, false));
    if ctx.rng.chance(1, 3) {
        while !h.m.is_empty() && !ctx.late() {
            let n = h.m.len();
            let i = ctx.rng.idx(n);
            let g = h.d.take(i).map(|(k, v)| (k.o(), v.get()));
            let w = h.m.e.remove(i);
            ctx.add("positional_removals");
            crate::check!(g == Some((w.0, w.1 .0)), "removal of position {i} of {n} took {g:?}, the entry there is {w:?}");
            own(rank_ok(ctx, &h, w.0));
            if ctx.rng.chance(1, n as u64 / 3 + 1) {
                own(all_ok(ctx, &h));
            }
        }
        own(all_ok(ctx, &h));
    }
    h.describe(ctx, "positions of", coll_name(D::TREE));
}

fn giant<D: Dict<u64, u64, Count>>(ctx: &mut Ctx) {
    Hist::<D, u64, u64, Count>::giant_session(ctx, true, "positions of", |ctx, h, _| {
        own(all_ok(ctx, h));
        for _ in 0..50 {
            let n = h.m.len();
            let i = ctx.rng.idx(n + 1);
            ctx.add("positional_removals");
            let g = h.d.take(i).map(|(k, v)| (k.o(), v.get()));
            let w = if i < n { Some(h.m.e.remove(i)) } else { None }.map(|x| (x.0, x.1 .0));
            crate::check!(g == w, "removal of position {i} of {n} took {g:?}, the entry there is {w:?}");
        }
    });
}

pub fn episode(ctx: &mut Ctx) {
    if ctx.giant() {
        return one_of!(ctx, 1 => giant::<Map<u64, u64, Count>>(ctx), 1 => giant::<Tree<u64, u64, Count>>(ctx));
    }
    one_of!(ctx,
        5 => body::<Map<u64, u64, Count>, u64, u64>(ctx),
        5 => body::<Tree<u64, u64, Count>, u64, u64>(ctx),
        3 => body::<Tree<Tk, Tv, Count>, Tk, Tv>(ctx),
        2 => body::<Map<String, u8, Count>, String, u8>(ctx),
        1 => body::<Map<u8, u64, Count>, u8, u64>(ctx),
        1 => body::<Tree<(), Tv, Count>, (), Tv>(ctx),
    );
}
