//! C04: sets answer exactly like an ordered set, including union.
use super::*;
use crate::dict::Set;
use crate::types::*;
use crate::one_of;

type H<K> = Hist<Set<K>, K, (), ()>;

fn full<K: KeyT>(h: &H<K>, ctx: &mut Ctx) {
    own(h.len_ok());
    own(h.ends_ok(ctx));
    own(h.contents_ok(ctx, true));
    let s = if h.m.len() > 3000 { 5 } else { 1 };
    own(h.lookups_ok(ctx, s));
}

fn history<K: KeyT>(ctx: &mut Ctx, h: &mut H<K>, steps: usize) {
    for _ in 0..steps {
        if ctx.late() {
            break;
        }
        let (a, r) = h.step(ctx);
        own(r);
        let (Act::Ins(o) | Act::Del(o)) = a;
        own(h.get_ok(ctx, o));
        match ctx.rng.below(12) {
            0 | 1 => {
                let p = h.probe_key(ctx);
                own(h.get_ok(ctx, p));
            }
            2 => own(h.ends_ok(ctx)),
            3 => {
                let p = h.probe_key(ctx);
                if h.m.find(p).is_ok() {
                    own(h.ins(ctx, p));
                } else {
                    own(h.del(ctx, p));
                }
            }
            4 if ctx.rng.chance(1, 60) => {
                h.d.clear();
                h.m = Model::new();
                ctx.add("clears");
                full(h, ctx);
            }
            _ => {}
        }
        if due(ctx, h.m.len(), 1) {
            full(h, ctx);
        }
    }
}

/// one union, driven step by step against the merged model
fn union_session<K: KeyT>(ctx: &mut Ctx, a: &H<K>, b: &H<K>) {
    let mut want: Vec<u64> = a.m.e.iter().chain(&b.m.e).map(|x| x.0).collect();
    want.sort_unstable();
    want.dedup();
    ctx.add("unions");
    ctx.note(mix(want.len() as u64, a.m.len() as u64));
    let what = format!("union of {} and {} keys ({} distinct)", a.m.len(), b.m.len(), want.len());
    // the key of the left set where both have an equal one
    let tag_of = |o: u64| match a.m.find(o) {
        Ok(i) => Some(a.m.e[i].1 .1),
        Err(_) => b.m.get(o).map(|x| x.1),
    };
    let mut u = a.d.union(&b.d);
    let mut i = 0;
    let mut after = 0;
    ev("union", a.m.len() as u64, b.m.len() as u64);
    loop {
        let rem = want.len() - i;
        let (lo, hi) = u.size_hint();
        check!(
            lo <= rem && hi.is_some_and(|h| h >= rem),
            "{what}: after {i} keys size_hint is ({lo}, {hi:?}) with {rem} keys still to come"
        );
        if ctx.rng.chance(1, 20 + want.len() as u64 / 8) {
            ctx.add("union_clones");
            let c = u.clone();
            let side = if ctx.rng.chance(1, 2) { c } else { std::mem::replace(&mut u, c) };
            finish(ctx, side, &want[i..], &tag_of, &what);
            continue;
        }
        crate::core::progress();
        let k = u.next();
        let (x, tag) = (k.map(|k| k.o()), k.and_then(|k| k.tag()));
        let w = want.get(i).copied();
        check!(x == w, "{what}: item {i} is {x:?}, expected {w:?}");
        if tag.is_some() && w.is_some() {
            let wt = w.and_then(tag_of);
            check!(tag == wt, "{what}: item {i} is not the key of the left set (tag {tag:?}, expected {wt:?})");
            ctx.add("union_identities");
        }
        ctx.add("union_items");
        if w.is_some() {
            i += 1;
            if ctx.rng.chance(1, 2 * want.len() as u64 + 1) {
                finish(ctx, u, &want[i..], &tag_of, &what);
                return;
            }
        } else {
            after += 1;
            if after > 3 {
                return;
            }
        }
    }
}
/// what a call on the rest of a union gave, as (order, identity)
type Seen = (u64, Option<u32>);
fn finish<'a, K: KeyT>(
    ctx: &mut Ctx,
    mut u: impl Iterator<Item = &'a K>,
    rest: &[u64],
    tag_of: &dyn Fn(u64) -> Option<u32>,
    what: &str,
) {
    let n = rest.len();
    // keys without an identity have none to compare
    let with = K::mk(0).tag().is_some();
    let want = |o: u64| -> Seen { (o, if with { tag_of(o) } else { None }) };
    let see = |k: &'a K| -> Seen { (k.o(), k.tag()) };
    let all = |v: &[Seen], w: &[u64]| v.len() == w.len() && v.iter().zip(w).all(|(x, o)| *x == want(*o));
    let (first, last) = (rest.first().map(|o| want(*o)), rest.last().map(|o| want(*o)));
    ctx.add("union_whole_calls");
    match ctx.rng.below(16) {
        0 => {
            let c = u.count();
            check!(c == n, "{what}: count() of the rest is {c}, expected {n}");
        }
        1 => {
            let m = u.min().map(see);
            check!(m == first, "{what}: min() of the rest is {m:?}, expected {first:?}");
        }
        2 => {
            let m = u.max().map(see);
            check!(m.map(|m| m.0) == last.map(|m| m.0), "{what}: max() of the rest is {m:?}, expected {last:?}");
            check!(m == last, "{what}: max() of the rest is a key of the other set: {m:?}, expected {last:?}");
        }
        3 => {
            let m = u.last().map(see);
            check!(m == last, "{what}: last() of the rest is {m:?}, expected {last:?}");
        }
        4 if n > 0 => {
            let i = ctx.rng.idx(n);
            let m = u.nth(i).map(see);
            check!(m == Some(want(rest[i])), "{what}: nth({i}) of the rest is {m:?}, expected {:?}", want(rest[i]));
            let (rem, (lo, hi)) = (n - i - 1, u.size_hint());
            check!(
                lo <= rem && hi.is_some_and(|h| h >= rem),
                "{what}: after nth({i}) size_hint is ({lo}, {hi:?}) with {rem} keys still to come"
            );
            let v: Vec<Seen> = u.map(see).collect();
            check!(all(&v, &rest[i + 1..]), "{what}: the keys after nth({i}) differ");
        }
        5 => {
            let i = ctx.rng.idx(n + 2);
            let m = u.nth(n + i);
            check!(m.is_none(), "{what}: nth({}) of {n} keys is {:?}", n + i, m.map(see));
            let m = u.next();
            check!(m.is_none(), "{what}: {:?} comes after the end", m.map(see));
        }
        6 => {
            let mut v = Vec::new();
            u.for_each(|k| v.push(see(k)));
            check!(all(&v, rest), "{what}: for_each visits {} keys of the rest, expected {n}, or other ones", v.len());
        }
        7 => {
            let v = u.fold(Vec::new(), |mut v, k| {
                v.push(see(k));
                v
            });
            check!(all(&v, rest), "{what}: fold visits {} keys of the rest, expected {n}, or other ones", v.len());
        }
        8 if n > 0 => {
            let i = ctx.rng.idx(n);
            let m = u.find(|k| k.o() >= rest[i]).map(see);
            check!(m == Some(want(rest[i])), "{what}: find of key {i} of the rest is {m:?}, expected {:?}", want(rest[i]));
            let v: Vec<Seen> = u.map(see).collect();
            check!(all(&v, &rest[i + 1..]), "{what}: the keys after find of key {i} differ");
        }
        9 if n > 0 => {
            let i = ctx.rng.idx(n);
            let m = u.position(|k| k.o() == rest[i]);
            check!(m == Some(i), "{what}: position of key {i} is {m:?}");
            let v: Vec<Seen> = u.map(see).collect();
            check!(all(&v, &rest[i + 1..]), "{what}: the keys after position of key {i} differ");
        }
        10 => {
            let m = u.max_by(|x, y| x.o().cmp(&y.o())).map(see);
            check!(m == last, "{what}: max_by over the rest is {m:?}, expected {last:?}");
        }
        11 => {
            let m = u.min_by_key(|x| x.o()).map(see);
            check!(m == first, "{what}: min_by_key over the rest is {m:?}, expected {first:?}");
        }
        12 => {
            let m = u.reduce(|x, y| if x.o() < y.o() { y } else { x }).map(see);
            check!(m == last, "{what}: reduce over the rest is {m:?}, expected {last:?}");
        }
        13 => {
            let k = ctx.rng.range(1, 5) as usize;
            let v: Vec<Seen> = u.step_by(k).map(see).collect();
            let w: Vec<u64> = rest.iter().step_by(k).copied().collect();
            check!(all(&v, &w), "{what}: step_by({k}) over the rest gives {} keys, expected {}, or other ones", v.len(), w.len());
        }
        14 => {
            let at = ctx.rng.idx(n + 1);
            let x = rest.get(at).copied().unwrap_or(u64::MAX);
            let (v, w): (Vec<&K>, Vec<&K>) = u.partition(|k| k.o() < x);
            let (v, w): (Vec<Seen>, Vec<Seen>) = (v.into_iter().map(see).collect(), w.into_iter().map(see).collect());
            check!(
                all(&v, &rest[..at]) && all(&w, &rest[at..]),
                "{what}: partition of the rest at key {at} gives {} and {} keys, or other ones",
                v.len(),
                w.len()
            );
        }
        _ => {
            let v: Vec<Seen> = u.map(see).collect();
            check!(all(&v, rest), "{what}: the rest has {} keys, expected {n}, or other ones", v.len());
        }
    }
}

fn from_keys<K: KeyT>(ctx: &mut Ctx, keys: Vec<u64>) -> H<K> {
    ctx.add("sets_from_iterator");
    let m = Model { e: keys.iter().map(|o| (*o, (0, 0))).collect() };
    let mut ks: Vec<u64> = keys;
    if ctx.rng.chance(1, 2) {
        ks.reverse();
        if !ks.is_empty() && ctx.rng.chance(1, 2) {
            let x = ks[ctx.rng.idx(ks.len())];
            ks.push(x);
        }
    }
    let d: Set<K> = ks.into_iter().map(K::mk).collect();
    let t = m.len().max(1);
    Hist::with(ctx, d, m, t)
}

fn body<K: KeyT>(ctx: &mut Ctx) {
    let target = ctx.size();
    let mut a: H<K> = Hist::new(ctx, target);
    full(&a, ctx);
    let rounds = if ctx.miri() { 1 } else { 4 };
    for _ in 0..rounds {
        let steps = ctx.steps(100 + target);
        history(ctx, &mut a, steps);
        full(&a, ctx);
        // partners of various overlap
        let keys: Vec<u64> = a.m.e.iter().map(|x| x.0).collect();
        let n = keys.len();
        for _ in 0..if n > 3000 { 2 } else { 6 } {
            let hi = keys.last().copied().unwrap_or(0);
            let mode = ctx.rng.below(10);
            let bk: Vec<u64> = match mode {
                0 => Vec::new(),
                1 => keys.clone(),
                2 => keys.iter().copied().filter(|_| ctx.rng.chance(1, 2)).collect(),
                3 => keys.iter().map(|k| k + 1).filter(|k| *k < K::MAXO).collect(),
                4 => keys[n / 2..].to_vec(),
                5 => keys[..n / 3].to_vec(),
                6 => (hi + 1..hi + 1 + ctx.rng.below(3 * ctx.n as u64)).filter(|k| *k < K::MAXO).collect(),
                7 => {
                    let k = ctx.rng.below(target as u64 + 1) as usize;
                    pattern(&mut ctx.rng, k, K::MAXO)
                }
                8 => vec![ctx.rng.below(K::MAXO.min(hi + 2))],
                _ => {
                    // long stretches from alternating sides
                    let w = ctx.rng.range(1, 2 * ctx.n as u64);
                    (0..hi.min(6000) + 2).filter(|k| (k / w) % 2 == 0 && *k < K::MAXO).collect()
                }
            };
            let mut b: H<K> = from_keys(ctx, bk);
            if ctx.rng.chance(1, 2) {
                let s = ctx.rng.below(ctx.n as u64) as usize;
                history(ctx, &mut b, s);
            }
            union_session(ctx, &a, &b);
            union_session(ctx, &b, &a);
            if mode == 1 {
                union_session(ctx, &a, &a);
            }
        }
    }
    let want: Vec<u64> = a.m.e.iter().map(|x| x.0).collect();
    a.describe(ctx, "set history with unions", "Set");
    let got: Vec<u64> = a.d.into_iter().map(|k| k.o()).collect();
    check!(got == want, "consuming a set of {} keys yields {} keys, or other ones", want.len(), got.len());
}

fn giant(ctx: &mut Ctx) {
    H::<u64>::giant_session(ctx, false, "sweeps", |ctx, h, _| {
        full(h, ctx);
        let p = pattern(&mut ctx.rng, 70_000, u64::MAX);
        let b = from_keys(ctx, p);
        union_session(ctx, h, &b);
        union_session(ctx, &b, h);
    });
}

pub fn episode(ctx: &mut Ctx) {
    if ctx.giant() {
        return giant(ctx);
    }
    one_of!(ctx,
        6 => body::<u64>(ctx),
        4 => body::<Tk>(ctx),
        2 => body::<String>(ctx),
        1 => body::<()>(ctx),
        1 => body::<u8>(ctx),
        1 => body::<Al>(ctx),
    );
}
