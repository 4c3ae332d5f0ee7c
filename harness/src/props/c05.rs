//! C05: cursors stay correct across arbitrary later modification.
use super::*;
use crate::dict::Tree;
use crate::types::*;
use crate::one_of;
use sweep_bptree::tree::Cursor;

struct Cur<K: KeyT> {
    c: Cursor<K>,
    o: u64,
    how: &'static str,
}
type H<K, V, A> = Hist<Tree<K, V, A>, K, V, A>;

fn full<K: KeyT, V: ValT, A: AggT<K, V>>(ctx: &mut Ctx, h: &H<K, V, A>, x: &Cur<K>) -> Vec<Cur<K>> {
    let (t, m) = (&h.d, &h.m);
    let (o, how) = (x.o, x.how);
    ev("cursor", o, m.len() as u64);
    ctx.add("cursor_probes");
    let mut out = Vec::new();
    let k = x.c.key().o();
    check!(k == o, "cursor ({how}) remembers key #{k} instead of #{o}");
    let want = m.get(o).map(|p| p.0);
    let up = m.above(o).map(|e| (e.0, e.1 .0));
    let down = m.below(o).map(|e| (e.0, e.1 .0));
    if want.is_none() {
        ctx.add("cursor_key_absent");
    }
    let ops = ctx.rng.below(64);
    if ops & 1 != 0 {
        let v = x.c.value(t).map(|v| v.get());
        check!(v == want, "cursor ({how}) at #{o}: value {v:?}, stored is {want:?} ({} entries)", m.len());
    }
    if ops & 2 != 0 {
        let e = x.c.exists(t);
        check!(e == want.is_some(), "cursor ({how}) at #{o}: exists {e}, stored value is {want:?}");
    }
    if ops & 4 != 0 {
        let n = x.c.next_with_value(t).map(|(c, v)| (c, v.get()));
        let g = n.as_ref().map(|(c, v)| (c.key().o(), *v));
        check!(
            g == up,
            "cursor ({how}) at #{o} ({}): next is {g:?}, expected {up:?} ({} entries)",
            if want.is_some() { "present" } else { "absent" },
            m.len()
        );
        if let Some((c, _)) = n {
            out.push(Cur { o: c.key().o(), c, how: "from next_with_value" });
        }
    }
    if ops & 8 != 0 {
        let n = x.c.prev_with_value(t).map(|(c, v)| (c, v.get()));
        let g = n.as_ref().map(|(c, v)| (c.key().o(), *v));
        check!(
            g == down,
            "cursor ({how}) at #{o} ({}): prev is {g:?}, expected {down:?} ({} entries)",
            if want.is_some() { "present" } else { "absent" },
            m.len()
        );
        if let Some((c, _)) = n {
            out.push(Cur { o: c.key().o(), c, how: "from prev_with_value" });
        }
    }
    if ops & 16 != 0 {
        let n = x.c.next(t);
        let g = n.as_ref().map(|c| c.key().o());
        check!(g == up.map(|u| u.0), "cursor ({how}) at #{o}: next is #{g:?}, expected {up:?} ({} entries)", m.len());
        if let Some(c) = n {
            out.push(Cur { o: c.key().o(), c, how: "from next" });
        }
    }
    if ops & 32 != 0 {
        let n = x.c.prev(t);
        let g = n.as_ref().map(|c| c.key().o());
        check!(g == down.map(|u| u.0), "cursor ({how}) at #{o}: prev is #{g:?}, expected {down:?} ({} entries)", m.len());
        if let Some(c) = n {
            out.push(Cur { o: c.key().o(), c, how: "from prev" });
        }
    }
    out
}

fn obtain<K: KeyT, V: ValT, A: AggT<K, V>>(ctx: &mut Ctx, h: &H<K, V, A>) -> Option<Cur<K>> {
    let t = &h.d;
    ctx.add("cursors_obtained");
    let w = ctx.rng.below(8);
    if w < 3 {
        let (c, want, how) = match w {
            0 => (Cursor::first(t).map(|(c, v)| (c, Some(v.get()))), h.m.e.first(), "from Cursor::first"),
            1 => (Cursor::last(t).map(|(c, v)| (c, Some(v.get()))), h.m.e.last(), "from Cursor::last"),
            _ => (t.cursor_first().map(|c| (c, None)), h.m.e.first(), "from cursor_first"),
        };
        let g = c.as_ref().map(|(c, v)| (c.key().o(), *v));
        let e = want.map(|x| (x.0, g.and_then(|g| g.1).and(Some(x.1 .0))));
        check!(g == e, "cursor {how} is at {g:?}, expected {e:?} ({} entries)", h.m.len());
        return c.map(|(c, _)| Cur { o: c.key().o(), c, how });
    }
    let o = h.probe_key(ctx);
    let k = K::mk(o);
    let want = h.m.get(o).map(|p| p.0);
    match t.get_cursor(&k) {
        Some((c, v)) => {
            let v = v.map(|v| v.get());
            check!(v == want, "get_cursor(#{o}) comes with value {v:?}, stored is {want:?}");
            let how = if want.is_some() { "from a present key" } else { "from an absent key" };
            Some(Cur { c, o, how })
        }
        None => {
            check!(h.m.is_empty(), "get_cursor(#{o}) is None with {} entries present", h.m.len());
            None
        }
    }
}

/// a complete walk in one direction
fn walk<K: KeyT, V: ValT, A: AggT<K, V>>(ctx: &mut Ctx, h: &H<K, V, A>) {
    let up = ctx.rng.chance(1, 2);
    ctx.add("cursor_walks");
    let (t, n) = (&h.d, h.m.len());
    let mut c = if up { Cursor::first(t) } else { Cursor::last(t) }.map(|(c, v)| (c, v.get()));
    for i in 0..=n {
        let w = if i < n { Some(&h.m.e[if up { i } else { n - 1 - i }]) } else { None };
        let g = c.as_ref().map(|(c, v)| (c.key().o(), *v));
        let w = w.map(|w| (w.0, w.1 .0));
        check!(g == w, "walking {} by cursor: step {i} of {n} is at {g:?}, expected {w:?}", if up { "up" } else { "down" });
        progress();
        let Some((x, _)) = c else { break };
        c = if up { x.next_with_value(t) } else { x.prev_with_value(t) }.map(|(c, v)| (c, v.get()));
    }
}
use crate::core::progress;

fn body<K: KeyT, V: ValT + Clone, A: AggT<K, V>>(ctx: &mut Ctx) {
    let target = ctx.size();
    let steps = ctx.steps(500 + 2 * target);
    let mut h: H<K, V, A> = if ctx.rng.chance(1, 5) {
        let p = pattern(&mut ctx.rng, target, K::MAXO);
        let e: Vec<(u64, Pay)> = p.iter().map(|o| (*o, (V::norm(o * 3), 0))).collect();
        let d = Tree::bulk(e.iter().map(|x| (K::mk(x.0), V::mk(x.1 .0))).collect());
        Hist::with(ctx, d, Model { e }, target)
    } else {
        Hist::new(ctx, target)
    };
    h.foreign = true;
    let mut pool: Vec<Cur<K>> = Vec::new();
    check!(
        !h.m.is_empty() || (Cursor::first(&h.d).is_none() && Cursor::last(&h.d).is_none() && h.d.cursor_first().is_none()),
        "a first/last cursor exists on an empty tree"
    );
    for _ in 0..steps {
        if ctx.late() {
            break;
        }
        // a few modifications
        let burst = if ctx.rng.chance(1, 12) { ctx.rng.below(2 * ctx.n as u64) } else { ctx.rng.range(1, 3) };
        let mut last = 0;
        for _ in 0..burst {
            let (a, r) = h.step(ctx);
            if let Err(e) = r {
                for x in &pool {
                    full(ctx, &h, x);
                }
                foreign(e);
            }
            let (Act::Ins(o) | Act::Del(o)) = a;
            last = o;
        }
        if ctx.rng.chance(1, 900) {
            h.d.clear();
            h.m = Model::new();
            ctx.add("clears");
        }
        if ctx.rng.chance(1, 400) {
            // the cursors move on to a clone of the collection
            let c = h.d.clone();
            if ctx.rng.chance(1, 2) {
                h.d = c;
            } else {
                let old = std::mem::replace(&mut h.d, c);
                drop(old);
            }
            ctx.add("moved_to_clone");
        }
        if pool.len() < 24 && ctx.rng.chance(2, 3) {
            pool.extend(obtain(ctx, &h));
        }
        // a cursor on the very key that was just changed
        if ctx.rng.chance(1, 3) {
            let k = K::mk(last);
            if let Some((c, v)) = h.d.get_cursor(&k) {
                let (v, w) = (v.map(|v| v.get()), h.m.get(last).map(|p| p.0));
                check!(v == w, "get_cursor(#{last}) comes with value {v:?}, stored is {w:?}");
                let how = if w.is_some() { "from a present key" } else { "from an absent key" };
                pool.push(Cur { c, o: last, how });
            }
        }
        let probes = if pool.is_empty() { 0 } else { 4.min(pool.len()) };
        for _ in 0..probes {
            let i = ctx.rng.idx(pool.len());
            let new = full(ctx, &h, &pool[i]);
            for n in new {
                match ctx.rng.below(8) {
                    // the moved cursor replaces the old one, or joins it
                    0..=2 => pool[i] = n,
                    3 => pool.push(n),
                    _ => {}
                }
            }
        }
        while pool.len() > 32 {
            let i = ctx.rng.idx(pool.len());
            let x = pool.swap_remove(i);
            if ctx.rng.chance(1, 2) {
                // a cloned cursor behaves the same
                let c = Cur { c: x.c.clone(), o: x.o, how: "cloned" };
                full(ctx, &h, &c);
            }
        }
        if due(ctx, h.m.len(), 1) && ctx.rng.chance(1, 4) {
            walk(ctx, &h);
            let all: Vec<usize> = (0..pool.len()).collect();
            for i in all {
                full(ctx, &h, &pool[i]);
            }
        }
    }
    for x in &pool {
        full(ctx, &h, x);
    }
    walk(ctx, &h);
    if ctx.rng.chance(1, 2) {
        // to empty, in order, under the cursors
        let back = ctx.rng.chance(1, 2);
        while !h.m.is_empty() && !ctx.late() {
            let o = if back { h.m.at(h.m.len() - 1) } else { h.m.at(0) };
            let r = h.del(ctx, o);
            other(r);
            if !pool.is_empty() {
                let i = ctx.rng.idx(pool.len());
                full(ctx, &h, &pool[i]);
            }
        }
        for x in &pool {
            full(ctx, &h, x);
        }
        check!(
            !h.m.is_empty() || (Cursor::first(&h.d).is_none() && Cursor::last(&h.d).is_none() && h.d.cursor_first().is_none()),
            "a first/last cursor exists on an emptied tree"
        );
    }
    h.describe(ctx, "cursors over", "BPlusTree");
}

fn giant(ctx: &mut Ctx) {
    let mut pool: Vec<Cur<u64>> = Vec::new();
    H::<u64, u64, ()>::giant_session(ctx, true, "cursors over", |ctx, h, _| {
        for x in &pool {
            full(ctx, h, x);
        }
        if ctx.rng.chance(1, 2) {
            walk(ctx, h);
        }
        for _ in 0..2000 {
            if let Some(x) = obtain(ctx, h) {
                pool.extend(full(ctx, h, &x));
                pool.push(x);
            }
        }
    });
}

/// the same few cursors across tens of thousands of modifications, asked after each
fn marathon(ctx: &mut Ctx) {
    let target = ctx.n * ctx.rng.range(2, 12) as usize;
    let mut h: H<u64, u64, ()> = Hist::new(ctx, target);
    h.foreign = true;
    let mut pool: Vec<Cur<u64>> = Vec::new();
    let steps = ctx.rng.pick(&[3_000, 70_000, 70_000, 140_000]);
    for i in 0..steps {
        if ctx.late() {
            break;
        }
        let (_, r) = h.step(ctx);
        other(r);
        if h.m.len() * 2 > target && pool.len() < 4 && ctx.rng.chance(1, 20) {
            pool.extend(obtain(ctx, &h));
        }
        for x in &pool {
            full(ctx, &h, x);
        }
        if i % 8192 == 8191 && !pool.is_empty() && ctx.rng.chance(1, 3) {
            let j = ctx.rng.idx(pool.len());
            pool.swap_remove(j);
        }
    }
    ctx.add("marathons");
    h.describe(ctx, "cursors kept over many changes of", "BPlusTree");
}

pub fn episode(ctx: &mut Ctx) {
    if ctx.giant() {
        return giant(ctx);
    }
    if !ctx.miri() && ctx.rng.chance(1, 120) {
        return marathon(ctx);
    }
    one_of!(ctx,
        8 => body::<u64, u64, ()>(ctx),
        4 => body::<Tk, Tv, Fold>(ctx),
        2 => body::<String, String, ()>(ctx),
        1 => body::<u8, (), ()>(ctx),
        1 => body::<(), u64, ()>(ctx),
    );
}
