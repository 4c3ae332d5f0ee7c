//! C01: maps and trees answer exactly like an ordered dictionary.
use super::*;
use crate::dict::{Map, Tree};
use crate::one_of;
use crate::types::*;
use sweep_bptree::augment::count::Count;

fn body<D, K, V, A>(ctx: &mut Ctx)
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    let target = ctx.size();
    let steps = ctx.steps(600 + 3 * target);
    let mut h: Hist<D, K, V, A> = Hist::new(ctx, target);
    own(h.ends_ok(ctx));
    own(h.contents_ok(ctx, true));
    let mut i = 0;
    while i < steps && !ctx.late() {
        i += 1;
        let (a, r) = h.step(ctx);
        own(r);
        let (Act::Ins(o) | Act::Del(o)) = a;
        // the key just touched and its neighbours, before and after any rebalancing
        own(h.get_ok(ctx, o));
        if ctx.rng.chance(1, 3) {
            let up = h.m.above(o).map(|x| x.0);
            let down = h.m.below(o).map(|x| x.0);
            for x in [up, down].into_iter().flatten() {
                own(h.get_ok(ctx, x));
            }
        }
        match ctx.rng.below(24) {
            0..=5 => {
                let p = h.probe_key(ctx);
                own(h.get_ok(ctx, p));
            }
            6..=9 => own(update(&mut h, ctx)),
            10 => own(h.ends_ok(ctx)),
            11 => {
                // removal of an absent key, insertion over a present one
                let p = h.probe_key(ctx);
                if h.m.find(p).is_ok() {
                    own(h.ins(ctx, p));
                } else {
                    own(h.del(ctx, p));
                }
                own(h.get_ok(ctx, p));
            }
            12 if ctx.rng.chance(1, 60) => {
                ev("clear", h.m.len() as u64, 0);
                if h.d.clear() {
                    h.m = Model::new();
                    ctx.add("clears");
                    own(h.len_ok());
                    own(h.ends_ok(ctx));
                    own(h.contents_ok(ctx, true));
                }
            }
            _ => {}
        }
        if due(ctx, h.m.len(), 1) {
            own(h.contents_ok(ctx, true));
            own(h.ends_ok(ctx));
            if ctx.rng.chance(1, 4) {
                h.record_shape(ctx);
            }
            if ctx.rng.chance(1, 3) {
                let s = if h.m.len() > 4000 { 6 } else { 1 };
                own(h.lookups_ok(ctx, s));
            }
        }
    }
    own(h.contents_ok(ctx, true));
    own(h.lookups_ok(ctx, 1));
    own(h.ends_ok(ctx));
    // to empty and a little beyond
    if ctx.rng.chance(1, 3) {
        let mode = ctx.rng.below(4);
        while !h.m.is_empty() && !ctx.late() {
            let n = h.m.len();
            let i = match mode {
                0 => 0,
                1 => n - 1,
                2 => n / 2,
                _ => ctx.rng.idx(n),
            };
            let o = h.m.at(i);
            own(h.del(ctx, o));
            own(h.get_ok(ctx, o));
            if ctx.rng.chance(1, 4 + n as u64 / 4) {
                own(h.contents_ok(ctx, true));
                own(h.ends_ok(ctx));
            }
        }
        if h.m.is_empty() {
            ctx.add("drained_to_empty");
            own(h.ends_ok(ctx));
            own(h.ins(ctx, 0));
            own(h.get_ok(ctx, 0));
            own(h.contents_ok(ctx, true));
        }
    }
    h.describe(ctx, "dictionary history", coll_name(D::TREE));
}

fn update<D, K, V, A>(h: &mut Hist<D, K, V, A>, ctx: &mut Ctx) -> Res
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    let o = h.probe_key(ctx);
    h.vc += 1;
    let nv = V::norm(mix(h.vc, 5) >> 16);
    ev("get_mut", o, nv);
    ctx.add("in_place_updates");
    let want = h.m.get(o).map(|p| p.0);
    let swap = |v: &mut V| {
        let old = v.get();
        *v = V::mk(nv);
        old
    };
    let got = if ctx.rng.chance(1, 2) {
        K::with_q(o, |q| h.d.get_mut(q).map(swap))
    } else {
        let k = K::mk(o);
        h.d.get_mut::<K>(&k).map(swap)
    };
    if got != want {
        return Err(format!("get_mut of key #{o} reached {got:?}, the value present is {want:?}"));
    }
    if let Some(p) = h.m.get_mut(o) {
        p.0 = nv;
    }
    h.get_ok(ctx, o)
}

fn giant<D, K, V, A>(ctx: &mut Ctx)
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    Hist::<D, K, V, A>::giant_session(ctx, false, "sweeps", |ctx, h, _| {
        own(h.contents_ok(ctx, true));
        own(h.ends_ok(ctx));
        own(h.lookups_ok(ctx, 5));
        for _ in 0..200 {
            own(update(h, ctx));
        }
        if ctx.rng.chance(1, 12) && h.d.clear() {
            h.m = Model::new();
            ctx.add("clears");
            own(h.len_ok());
            own(h.contents_ok(ctx, true));
        }
    });
}

pub fn episode(ctx: &mut Ctx) {
    if ctx.giant() {
        return one_of!(ctx,
            2 => giant::<Map<u64, u64>, u64, u64, ()>(ctx),
            2 => giant::<Tree<u64, u64>, u64, u64, ()>(ctx),
            1 => giant::<Tree<(u32, u16), u64>, (u32, u16), u64, ()>(ctx),
            1 => giant::<Map<u64, u64, Count>, u64, u64, Count>(ctx),
        );
    }
    one_of!(ctx,
        5 => body::<Map<u64, u64>, u64, u64, ()>(ctx),
        5 => body::<Tree<u64, u64>, u64, u64, ()>(ctx),
        4 => body::<Map<Tk, Tv>, Tk, Tv, ()>(ctx),
        4 => body::<Tree<Tk, u64>, Tk, u64, ()>(ctx),
        2 => body::<Map<String, String>, String, String, ()>(ctx),
        2 => body::<Tree<Vec<u8>, u8>, Vec<u8>, u8, ()>(ctx),
        2 => body::<Tree<i32, ()>, i32, (), ()>(ctx),
        1 => body::<Map<u8, u64>, u8, u64, ()>(ctx),
        1 => body::<Map<(), u64>, (), u64, ()>(ctx),
        1 => body::<Map<Box<u64>, Big>, Box<u64>, Big, ()>(ctx),
        1 => body::<Tree<Al, Al>, Al, Al, ()>(ctx),
        2 => body::<Tree<(u32, u16), Tv>, (u32, u16), Tv, ()>(ctx),
        1 => body::<Map<Odd, Mixed>, Odd, Mixed, ()>(ctx),
        1 => body::<Tree<Niche, Fat>, Niche, Fat, ()>(ctx),
        1 => body::<Map<Wide, Twelve>, Wide, Twelve, ()>(ctx),
        2 => body::<Map<u64, u64, Count>, u64, u64, Count>(ctx),
        2 => body::<Tree<u64, u64, Fold>, u64, u64, Fold>(ctx),
    );
}
