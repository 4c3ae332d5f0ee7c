//! C03: bulk construction is equivalent to inserting the items one by one.
use super::*;
use crate::dict::{Map, Set, Tree};
use crate::types::*;
use crate::one_of;
use sweep_bptree::augment::count::Count;
use sweep_bptree::tree::Cursor;

/// number of items: around every multiple of a node, of a node of nodes, ...
fn amount(ctx: &mut Ctx, maxo: u64) -> usize {
    let n = ctx.n as u64;
    let big = !ctx.miri();
    let w = ctx.rng.below(100);
    let around = |ctx: &mut Ctx, c: u64, d: u64| (c + ctx.rng.below(2 * d + 1)).saturating_sub(d);
    let x = match w {
        0..=24 => ctx.rng.below(5 * n + 1),
        25..=49 => {
            // multiples of one leaf
            let k = ctx.rng.range(1, if big { 3 * n } else { n });
            around(ctx, k * n, 2)
        }
        50..=79 => {
            // multiples of one full inner node
            let k = ctx.rng.range(1, if big { 4 } else { 2 });
            let d = ctx.rng.pick(&[1, n / 2, n, 2 * n + 2]);
            around(ctx, k * n * (n + 1), d)
        }
        80..=95 => {
            let k = ctx.rng.range(1, 12);
            let d = ctx.rng.pick(&[1, n, n * n]);
            if n <= 16 && big {
                around(ctx, k * n * (n + 1) * (n + 1), d)
            } else {
                ctx.rng.below(60 * n)
            }
        }
        _ => {
            if n > 16 && big && ctx.rng.chance(1, 4) {
                let d = ctx.rng.pick(&[1, n, n * n]);
                around(ctx, n * (n + 1) * (n + 1), d)
            } else {
                ctx.rng.below(if big { 120 * n } else { 12 * n })
            }
        }
    };
    x.min(maxo) as usize
}

struct Input {
    /// (key number, value, tag) in the order given
    items: Vec<(u64, u64, u32)>,
    what: &'static str,
}
fn input(ctx: &mut Ctx, maxo: u64, sorted: bool) -> Input {
    let distinct = amount(ctx, maxo);
    let keys = pattern(&mut ctx.rng, distinct, maxo);
    let mut items: Vec<u64> = Vec::new();
    let dups = ctx.rng.below(5);
    let mut what = "distinct";
    for (i, o) in keys.iter().enumerate() {
        items.push(*o);
        let extra = match dups {
            1 if ctx.rng.chance(1, 10) => 1,
            2 => ctx.rng.below(3),
            // one long run of equal keys, reaching over nodes
            3 if i == keys.len() / 2 || i == 0 || i + 1 == keys.len() => ctx.rng.below(3 * ctx.n as u64),
            _ => 0,
        };
        if extra > 0 {
            what = "with duplicates";
        }
        for _ in 0..extra {
            items.push(*o);
        }
    }
    if !sorted {
        match ctx.rng.below(9) {
            // nearly sorted: a few neighbours swapped, a few items somewhere else, a few seen before
            4 | 5 if items.len() > 1 => {
                let d = ctx.rng.pick(&[1, 1, 2, 3, ctx.n]);
                for _ in 0..ctx.rng.range(1, 4) {
                    let i = ctx.rng.idx(items.len());
                    let j = (i + d).min(items.len() - 1);
                    items.swap(i, j);
                }
                what = "nearly sorted";
            }
            6 if items.len() > 1 => {
                for _ in 0..ctx.rng.range(1, 3) {
                    let x = items[ctx.rng.idx(items.len())];
                    if ctx.rng.chance(1, 2) {
                        items.retain(|y| *y != x);
                    }
                    items.insert(ctx.rng.idx(items.len() + 1), x);
                }
                what = "nearly sorted";
            }
            // up and down again, or runs that overlap
            7 => {
                let (mut a, b): (Vec<_>, Vec<_>) = items.iter().enumerate().partition(|x| x.0 % 2 == 0);
                if ctx.rng.chance(1, 2) {
                    a.extend(b);
                } else {
                    a.extend(b.into_iter().rev());
                }
                items = a.into_iter().map(|x| *x.1).collect();
                what = "two runs";
            }
            // sorted blocks in another order
            8 if !items.is_empty() => {
                let l = ctx.rng.range(1, 2 * ctx.n as u64 + 1) as usize;
                let mut b: Vec<Vec<u64>> = items.chunks(l).map(|c| c.to_vec()).collect();
                let (i, j) = (ctx.rng.idx(b.len()), ctx.rng.idx(b.len()));
                b.swap(i, j);
                if ctx.rng.chance(1, 2) {
                    let i = ctx.rng.idx(b.len());
                    b[i].reverse();
                }
                items = b.concat();
                what = "blocks";
            }
            0 => items.reverse(),
            1 => {
                let k = ctx.rng.idx(items.len() + 1);
                let k = k.min(items.len());
                items.rotate_left(k);
            }
            2 => {
                for i in (1..items.len()).rev() {
                    items.swap(i, ctx.rng.idx(i + 1));
                }
            }
            _ => {}
        }
    }
    let items = items
        .into_iter()
        .enumerate()
        .map(|(i, o)| (o, mix(i as u64, 11) >> 20, i as u32 + 1))
        .collect();
    Input { items, what }
}

fn same<D, K, V, A>(ctx: &mut Ctx, b: &Hist<D, K, V, A>, c: &D, how: &str) -> Res
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    let mut l = b.d.iter();
    let mut r = c.iter();
    let mut i = 0;
    loop {
        let x = l.next().map(|x| (x.0.o(), x.1.get()));
        let y = r.next().map(|x| (x.0.o(), x.1.get()));
        if x != y {
            return Err(format!("{how}: entry {i} is {x:?} when bulk built, {y:?} when built by insertion"));
        }
        if x.is_none() {
            break;
        }
        i += 1;
    }
    let l: Vec<_> = b.d.iter().rev().map(|x| (x.0.o(), x.1.get())).collect();
    if !l.iter().rev().map(|x| x.0).eq(b.m.e.iter().map(|x| x.0)) {
        return Err(format!("{how}: backward iteration over the bulk-built collection differs from its contents"));
    }
    if b.d.len() != c.len() {
        return Err(format!("{how}: len {} when bulk built, {} when built by insertion", b.d.len(), c.len()));
    }
    ctx.add("comparisons_of_both");
    Ok(())
}

fn body<D, K, V, A>(ctx: &mut Ctx, extra: impl Fn(&mut Ctx, &Hist<D, K, V, A>, &D) -> Res)
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    let inp = input(ctx, K::MAXO, D::TREE);
    ev("bulk", inp.items.len() as u64, 0);
    ctx.add("bulk_loads");
    ctx.st.add("bulk_items", inp.items.len() as u64);
    let items = inp.items.iter().map(|x| (K::mk_tag(x.0, x.2), V::mk(x.1))).collect();
    let b = if ctx.rng.chance(1, 4) {
        // an iterator that goes on after its end: nothing behind the end belongs to it
        ctx.add("odd_sources");
        let o = ctx.rng.below(K::MAXO);
        let beyond = ctx.rng.chance(2, 3).then(|| (K::mk(o), V::mk(77)));
        let hint = ctx.rng.below(5);
        D::from_odd(crate::dict::Odd::new(items, hint, beyond))
    } else {
        D::bulk(items)
    };
    // one by one
    let mut c = D::create();
    let mut want = std::collections::BTreeMap::new();
    for x in &inp.items {
        crate::core::progress();
        base_op(true, || c.insert(K::mk(x.0), V::mk(x.1)));
        want.insert(x.0, V::norm(x.1));
    }
    let m: Model<Pay> = Model { e: want.into_iter().map(|(o, v)| (o, (v, 0))).collect() };
    let size = m.len();
    ctx.note(size as u64);
    ctx.note(inp.items.len() as u64);
    ctx.st.max("largest_bulk_load", size as u64);
    let mut b: Hist<D, K, V, A> = Hist::with(ctx, b, m, size.clamp(1, 4000));
    b.sh.dom = (size as u64 * 3 + 10).min(K::MAXO);
    // the insertion-built collection is the reference of this property
    if let Err(e) = b.contents_ok(ctx, false).and_then(|_| b.len_ok()) {
        own(same(ctx, &b, &c, "directly"));
        foreign(e);
    }
    own(same(ctx, &b, &c, "directly"));
    own(b.ends_ok(ctx));
    let stride = if size > 3000 { 50 } else { 1 };
    own(b.lookups_ok(ctx, stride));
    own(extra(ctx, &b, &c));

    // the same later history on both
    let big = size > 6000;
    let steps = if big { 400 } else { ctx.steps(200 + size) };
    let mode = ctx.rng.below(7);
    let pos = ctx.rng.idx(size.max(1));
    for s in 0..steps {
        if ctx.late() {
            break;
        }
        let n = b.m.len();
        let a = match mode {
            0 if n > 0 => Act::Del(b.m.at(0)),
            1 if n > 0 => Act::Del(b.m.at(n - 1)),
            2 if n > 0 => Act::Del(b.m.at(ctx.rng.idx(n))),
            3 if n > 0 => Act::Del(b.m.at(pos.min(n - 1))),
            4 => Act::Ins((b.m.e.last().map_or(0, |x| x.0) + 1) % K::MAXO),
            5 => Act::Ins(ctx.rng.below(b.sh.dom)),
            _ => b.pick(ctx),
        };
        let (o, x) = match a {
            Act::Ins(o) => (o, None),
            Act::Del(o) => (o, Some(())),
        };
        let want = b.m.get(o).map(|p| p.0);
        let rb = b.apply(ctx, a);
        let rc = if x.is_some() {
            K::with_q(o, |q| base_op(true, || c.remove(q))).map(|v| v.get())
        } else {
            let v = b.m.get(o).map_or(0, |p| p.0);
            base_op(true, || c.insert(K::mk(o), V::mk(v))).map(|v| v.get())
        };
        ctx.add("shared_later_operations");
        if rc != want || c.len() != b.m.len() {
            foreign(format!("the insertion-built collection returned {rc:?}, expected {want:?}"));
        }
        if let Err(e) = rb {
            crate::fail!("{size} bulk-loaded entries ({}), later: {e}; the insertion-built collection answers right", inp.what);
        }
        own(b.get_ok(ctx, o));
        let every = if big { 150 } else { 40 + n / 2 };
        if s % every == every - 1 {
            own(same(ctx, &b, &c, "later"));
            own(b.contents_ok(ctx, false));
            own(b.ends_ok(ctx));
            own(extra(ctx, &b, &c));
        }
    }
    own(same(ctx, &b, &c, "at the end"));
    own(b.contents_ok(ctx, false));
    own(b.lookups_ok(ctx, if big { 50 } else { 1 }));
    own(extra(ctx, &b, &c));
    b.describe(ctx, "bulk load and later history", coll_name(D::TREE));
    ctx.desc = format!("{} items ({}), {}", inp.items.len(), inp.what, ctx.desc);
}

fn counted<D: Dict<u64, u64, Count>>(ctx: &mut Ctx, b: &Hist<D, u64, u64, Count>, c: &D) -> Res {
    let n = b.m.len();
    if b.d.root_agg().count() != c.root_agg().count() {
        return Err(format!("count aggregate {} when bulk built, {} otherwise", b.d.root_agg().count(), c.root_agg().count()));
    }
    for _ in 0..20 {
        let i = ctx.rng.below(n as u64 + 2) as usize;
        let x = b.d.find(i).map(|x| *x.0);
        let w = (i < n).then(|| b.m.at(i));
        if x != w {
            return Err(format!("position {i} of the bulk-built collection is {x:?}, expected {w:?}"));
        }
    }
    Ok(())
}
fn folded<D: Dict<u64, u64, Fold>>(_: &mut Ctx, b: &Hist<D, u64, u64, Fold>, c: &D) -> Res {
    if b.d.root_agg().0 != c.root_agg().0 {
        return Err(format!("aggregate {:?} when bulk built, {:?} when built by insertion", b.d.root_agg().0, c.root_agg().0));
    }
    Ok(())
}
fn cursors(ctx: &mut Ctx, b: &Hist<Tree<u64, u64>, u64, u64, ()>, _: &Tree<u64, u64>) -> Res {
    let n = b.m.len();
    let f = Cursor::first(&b.d).map(|x| *x.0.key());
    let l = Cursor::last(&b.d).map(|x| *x.0.key());
    if f != b.m.e.first().map(|x| x.0) || l != b.m.e.last().map(|x| x.0) {
        return Err(format!("first/last cursor of the bulk-built tree at {f:?}/{l:?}"));
    }
    for _ in 0..10 {
        if n == 0 {
            break;
        }
        let mut i = ctx.rng.idx(n);
        let Some((mut c, _)) = b.d.get_cursor(&b.m.at(i)) else {
            return Err("no cursor for a present key".into());
        };
        let up = ctx.rng.chance(1, 2);
        for _ in 0..ctx.n + 2 {
            let nx = if up { c.next(&b.d) } else { c.prev(&b.d) };
            let w = if up { i.checked_add(1).filter(|i| *i < n) } else { i.checked_sub(1) };
            match (nx, w) {
                (Some(x), Some(j)) if *x.key() == b.m.at(j) => {
                    c = x;
                    i = j;
                }
                (None, None) => break,
                (x, j) => {
                    return Err(format!(
                        "cursor step over the bulk-built tree reached {:?}, expected {:?}",
                        x.map(|c| *c.key()),
                        j.map(|j| b.m.at(j))
                    ))
                }
            }
        }
    }
    Ok(())
}

pub fn episode(ctx: &mut Ctx) {
    one_of!(ctx,
        4 => body::<Map<u64, u64>, u64, u64, ()>(ctx, |_, _, _| Ok(())),
        4 => body::<Tree<u64, u64>, u64, u64, ()>(ctx, cursors),
        2 => body::<Map<Tk, Tv>, Tk, Tv, ()>(ctx, |_, _, _| Ok(())),
        3 => body::<Set<u64>, u64, (), ()>(ctx, |_, _, _| Ok(())),
        1 => body::<Set<String>, String, (), ()>(ctx, |_, _, _| Ok(())),
        3 => body::<Map<u64, u64, Count>, u64, u64, Count>(ctx, counted),
        3 => body::<Tree<u64, u64, Fold>, u64, u64, Fold>(ctx, folded),
        1 => body::<Tree<(), u64>, (), u64, ()>(ctx, |_, _, _| Ok(())),
        1 => body::<Map<u8, Tv>, u8, Tv, ()>(ctx, |_, _, _| Ok(())),
    );
}
