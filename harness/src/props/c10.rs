//! C10: every element is owned once and dropped exactly once, with no leak.
//! The ledger stops at the first double drop or use after drop; here the counts are compared.
use super::*;
use crate::dict::{Map, Set, Tree};
use crate::types::*;
use crate::one_of;
use sweep_bptree::augment::SearchAugmentation;

/// what is inside: value identities by key
fn inside_ok<D, K, A>(ctx: &mut Ctx, h: &Hist<D, K, Tv, A>, ids: &Model<u32>, out: i64)
where
    D: Dict<K, Tv, A>,
    K: KeyT,
    A: Augmentation<K, Tv>,
{
    ctx.add("ownership_audits");
    let n = h.m.len() as i64;
    let l = live(Class::Val);
    check!(l == n + out, "{l} values are alive, with {n} entries present and {out} values held by the caller");
    let mut i = 0;
    for (k, v) in h.d.iter() {
        k.verify();
        v.get();
        if i < ids.len() && ids.e[i].0 == k.o() {
            check!(
                ids.e[i].1 == v.id(),
                "key #{} holds value identity {}, the one given was {}",
                k.o(),
                v.id(),
                ids.e[i].1
            );
        }
        i += 1;
    }
    ctx.st.add("entries_audited", i as u64);
}

/// an operation answered wrongly, which is another property's; whatever is inside is still owned once
fn astray<D, K, A>(ctx: &mut Ctx, d: &D, out: i64, what: &str) -> !
where
    D: Dict<K, Tv, A>,
    K: KeyT,
    A: Augmentation<K, Tv>,
{
    let mut ids = std::collections::BTreeSet::new();
    for (k, v) in d.iter() {
        k.verify();
        v.get();
        check!(ids.insert(v.id()), "after a {what} value identity {} is inside twice", v.id());
    }
    ctx.add("ownership_audits");
    let (l, n) = (live(Class::Val), ids.len() as i64);
    check!(l == n + out, "after a {what} {l} values are alive, with {n} entries inside and {out} values held by the caller");
    foreign(format!("{what} answered wrongly"))
}

fn body<D, K, A>(ctx: &mut Ctx, end: fn(&mut Ctx, D) -> (u64, u64))
where
    D: Dict<K, Tv, A>,
    K: KeyT,
    A: AggT<K, Tv> + SearchAugmentation<K, Tv, Query = Find>,
{
    let target = ctx.size();
    let steps = ctx.steps(300 + 2 * target);
    let mut h: Hist<D, K, Tv, A> = Hist::new(ctx, target);
    h.foreign = true;
    let mut ids: Model<u32> = Model::new();
    let mut held: Vec<Tv> = Vec::new();
    for _ in 0..steps {
        if ctx.late() {
            break;
        }
        let n = h.m.len();
        match ctx.rng.below(40) {
            0 if n > 0 => {
                // taken by search: key and value both handed over
                let i = ctx.rng.idx(n);
                let o = h.m.at(i);
                let x = h.d.take(Find::Nth(i as u64));
                if let Some((k, v)) = x {
                    k.verify();
                    if k.o() != o {
                        astray(ctx, &h.d, held.len() as i64 + 1, "removal by search");
                    }
                    check!(ids.get(o) == Some(&v.id()), "the value handed back for #{o} has identity {}", v.id());
                    h.m.remove(o);
                    ids.remove(o);
                    if ctx.rng.chance(1, 2) {
                        held.push(v);
                    }
                }
            }
            1 if ctx.rng.chance(1, 30) => {
                let cleared = h.d.clear();
                if !cleared {
                    h.d = D::create();
                }
                ctx.add(if cleared { "clears" } else { "replaced" });
                h.m = Model::new();
                ids = Model::new();
                check!(
                    live(Class::Val) == held.len() as i64,
                    "{} values are alive after {}, the caller holds {}",
                    live(Class::Val),
                    if cleared { "a clear" } else { "the collection was replaced" },
                    held.len()
                );
                check!(live(Class::Key) == 0 || K::NAME != "tracked", "{} keys are alive after everything was removed", live(Class::Key));
            }
            2 if ctx.rng.chance(1, 30) => {
                // rebuilt by bulk load, with duplicate keys
                let k = ctx.rng.below(target as u64 + 1) as usize;
                let p = pattern(&mut ctx.rng, k, K::MAXO);
                let mut items = Vec::new();
                ids = Model::new();
                h.m = Model::new();
                for o in p {
                    let copies = if ctx.rng.chance(1, 8) { ctx.rng.range(1, 4) } else { 1 };
                    for c in 0..copies {
                        let v = Tv::mk(o + c);
                        if c == copies - 1 {
                            ids.e.push((o, v.id()));
                            h.m.e.push((o, (o + c, 0)));
                        }
                        items.push((K::mk(o), v));
                    }
                }
                h.d = D::bulk(items);
                ctx.add("bulk_loads");
                inside_ok(ctx, &h, &ids, held.len() as i64);
            }
            3 => {
                // in-place replacement of the value
                let o = h.probe_key(ctx);
                if let Some(v) = K::with_q(o, |q| h.d.get_mut(q)) {
                    let nv = Tv::mk(v.get());
                    let id = nv.id();
                    let old = std::mem::replace(v, nv);
                    check!(ids.get(o) == Some(&old.id()), "get_mut of #{o} reached value identity {}", old.id());
                    ids.insert(o, id);
                    held.push(old);
                }
            }
            4 if !held.is_empty() => {
                let i = ctx.rng.idx(held.len());
                drop(held.swap_remove(i));
            }
            _ => {
                let a = h.pick(ctx);
                match a {
                    Act::Ins(o) => {
                        h.vc += 1;
                        let v = Tv::mk(h.vc);
                        let id = v.id();
                        ev("insert", o, id as u64);
                        ctx.add("inserts");
                        let (k, tag) = (K::mk(o), 0);
                        let old = base_op(true, || h.d.insert(k, v));
                        let want = ids.insert(o, id);
                        if old.is_some() != want.is_some() {
                            astray(ctx, &h.d, (held.len() + old.is_some() as usize) as i64, "insert");
                        }
                        if let (Some(v), Some(w)) = (&old, want) {
                            check!(v.id() == w, "insert over #{o} handed back value identity {}, the one stored was {w}", v.id());
                            v.get();
                        }
                        h.m.insert(o, (h.vc, tag));
                        if ctx.rng.chance(1, 3) {
                            held.extend(old);
                        }
                        h.peak = h.peak.max(h.m.len());
                    }
                    Act::Del(o) => {
                        ev("remove", o, 0);
                        ctx.add("removals");
                        let old = base_op(true, || K::with_q(o, |q| h.d.remove(q)));
                        let want = ids.remove(o);
                        if old.is_some() != want.is_some() {
                            astray(ctx, &h.d, (held.len() + old.is_some() as usize) as i64, "remove");
                        }
                        if let (Some(v), Some(w)) = (&old, want) {
                            check!(v.id() == w, "removal of #{o} handed back value identity {}, the one stored was {w}", v.id());
                        }
                        h.m.remove(o);
                        if ctx.rng.chance(1, 3) {
                            held.extend(old);
                        }
                    }
                }
            }
        }
        let l = live(Class::Val);
        let (n, out) = (h.m.len() as i64, held.len() as i64);
        check!(l == n + out, "{l} values are alive, with {n} entries present and {out} values held by the caller");
        if held.len() > 50 {
            held.clear();
        }
        if due(ctx, n as usize, 1) {
            inside_ok(ctx, &h, &ids, held.len() as i64);
        }
    }
    inside_ok(ctx, &h, &ids, held.len() as i64);
    h.describe(ctx, "ownership in", coll_name(D::TREE));
    let n = h.m.len() as u64;
    ctx.add("ends_of_life");
    let (mode, taken) = end(ctx, h.d);
    ctx.desc.push_str(&format!(", end {mode} after {taken} of {n} items"));
    check!(
        live(Class::Val) == held.len() as i64,
        "{} values are alive after the end of the collection (mode {mode}, {taken} of {n} items taken), the caller holds {}",
        live(Class::Val),
        held.len()
    );
    drop(held);
    check!(
        live(Class::Key) == 0 && live(Class::Agg) == 0,
        "{} keys and {} aggregates are alive after the end of the collection (mode {mode}, {taken} of {n} items taken)",
        live(Class::Key),
        live(Class::Agg)
    );
}

/// consume an owning iterator partly or fully, from either end
fn eat<T>(ctx: &mut Ctx, mut it: impl DoubleEndedIterator<Item = T> + ExactSizeIterator, read: fn(&T)) -> u64 {
    let n = it.len();
    let stop = match ctx.rng.below(4) {
        0 => n,
        1 => ctx.rng.idx(n.min(3) + 1),
        _ => ctx.rng.idx(n + 1),
    };
    let style = ctx.rng.below(5);
    let mut held = Vec::new();
    let mut taken = 0;
    for i in 0..stop {
        let x = match style {
            0 => it.next(),
            1 => it.next_back(),
            2 if i % 2 == 0 => it.next(),
            2 => it.next_back(),
            3 if i % 7 == 3 => it.nth(1),
            3 if i % 7 == 5 => it.nth_back(i % 3),
            3 if i % 31 == 7 => it.nth(i % 90),
            3 if i % 31 == 9 => it.nth_back(i % 90),
            _ if ctx.rng.chance(1, 2) => it.next(),
            _ => it.next_back(),
        };
        taken += x.is_some() as u64;
        if let Some(x) = x {
            read(&x);
            if i % 3 == 0 {
                held.push(x);
            }
        }
    }
    if stop == n && ctx.rng.chance(1, 2) {
        // beyond the end
        taken += it.next().is_some() as u64 + it.next_back().is_some() as u64;
    }
    if ctx.rng.chance(1, 3) {
        // the rest by one of the consuming calls
        match ctx.rng.below(6) {
            0 => {
                it.count();
            }
            1 => held.extend(it.last()),
            2 => held.extend(it),
            3 => held.extend(it.rev()),
            4 => it.for_each(|x| read(&x)),
            _ => it.rfold((), |_, x| read(&x)),
        }
        for x in &held {
            read(x);
        }
    } else if ctx.rng.chance(1, 2) {
        drop(held);
        drop(it);
    } else {
        drop(it);
        for x in &held {
            read(x);
        }
    }
    taken
}

fn end_tree<K: KeyT, A: AggT<K, Tv>>(ctx: &mut Ctx, mut d: Tree<K, Tv, A>) -> (u64, u64) {
    let mode = ctx.rng.below(6);
    ev("end", mode, d.len() as u64);
    // held by the caller
    let base_v = live(Class::Val) - d.len() as i64;
    match mode {
        0 => (0, 0),
        1 => {
            d.clear();
            check!(live(Class::Val) <= 50, "{} values are alive after a clear", live(Class::Val));
            (1, 0)
        }
        2 => {
            let mut c = d.clone();
            if ctx.rng.chance(1, 2) {
                // copied over an older collection
                let n = ctx.rng.pick(&[0, 1, d.len() / 2, d.len(), 2 * d.len()]);
                for i in 0..n {
                    if i % 2 == 0 {
                        c.remove::<K>(&K::mk((i as u64 * 7919) % K::MAXO));
                    } else {
                        c.insert(K::mk((i as u64 * 7919) % K::MAXO), Tv::mk(1));
                    }
                }
                let over = ctx.rng.chance(1, 2);
                if over {
                    c.clone_from(&d);
                } else {
                    d.clone_from(&c);
                }
                check!(c.len() == d.len(), "after clone_from {} and {} entries", c.len(), d.len());
                check!(
                    live(Class::Val) == base_v + 2 * d.len() as i64,
                    "after clone_from two collections of {} entries hold {} values",
                    d.len(),
                    live(Class::Val) - base_v
                );
            }
            if ctx.rng.chance(1, 2) {
                drop(d);
                drop(c);
            } else {
                drop(c);
                drop(d);
            }
            (2, 0)
        }
        3 => {
            let it = d.into_iter();
            drop(it);
            (3, 0)
        }
        _ => {
            ctx.add("consumed");
            let t = eat(ctx, d.into_iter(), |x| {
                x.0.verify();
                x.1.get();
            });
            (4, t)
        }
    }
}
fn end_map<K: KeyT, A: AggT<K, Tv>>(ctx: &mut Ctx, d: Map<K, Tv, A>) -> (u64, u64) {
    let mut d = d;
    if ctx.rng.chance(1, 2) {
        d = std::mem::take(&mut d);
    }
    drop(d);
    (9, 0)
}

/// every combination of parts with and without destructors, of any size: ownership by counting
fn parts_body<K: KeyT, V: ValT + Clone, A: AggT<K, V>>(ctx: &mut Ctx) {
    // nothing is kept by the caller here, queries are gone after each call
    let counted = |name: &str| name == "tracked" || name.starts_with("zero-sized");
    let (vals, keys) = (counted(V::NAME), counted(K::NAME));
    let aggs = std::mem::needs_drop::<A>();
    let target = ctx.size();
    let steps = ctx.steps(150 + 2 * target);
    let mut h: Hist<Tree<K, V, A>, K, V, A> = Hist::new(ctx, target);
    h.foreign = true;
    let counts = |h: &Hist<Tree<K, V, A>, K, V, A>, copies: i64, when: &str| {
        let n = h.d.len() as i64;
        let (v, k, a) = (live(Class::Val), live(Class::Key), live(Class::Agg));
        if vals {
            check!(v == n * copies, "{v} values are alive {when}, {} are inside", n * copies);
        }
        if keys {
            check!(k >= n * copies, "{k} keys are alive {when}, {} are inside", n * copies);
        }
        if aggs {
            check!(a >= copies, "{a} aggregates are alive {when}");
        }
    };
    for i in 0..steps {
        if ctx.late() {
            break;
        }
        let (_, r) = h.step(ctx);
        other(r);
        if i % 8 == 0 {
            counts(&h, 1, "after an operation");
        }
        if ctx.rng.chance(1, 600) {
            h.d.clear();
            h.m = Model::new();
            counts(&h, 1, "after a clear");
            check!(live(Class::Key) == 0, "{} keys are alive after a clear", live(Class::Key));
        }
        if ctx.rng.chance(1, 400) {
            let mut c = h.d.clone();
            counts(&h, 2, "after cloning");
            match ctx.rng.below(3) {
                0 => drop(c),
                1 => c.clear(),
                _ => h.d = c,
            }
            ctx.add("clones");
            counts(&h, 1, "after a clone was given up");
        }
        if ctx.rng.chance(1, 400) {
            // built anew from what was inside
            let d = std::mem::replace(&mut h.d, Tree::create());
            h.d = Tree::bulk(d.into_iter().collect());
            ctx.add("bulk_loads");
            counts(&h, 1, "after building anew");
        }
    }
    h.describe(ctx, "ownership of parts in", "BPlusTree");
    let n = h.m.len();
    let mut t = 0;
    let mode = ctx.rng.below(5);
    let mut d = h.d;
    match mode {
        0 => drop(d),
        1 => {
            drop(std::mem::replace(&mut d, Tree::create()));
            drop(d);
        }
        2 => drop(d.into_iter()),
        _ => {
            ctx.add("consumed");
            t = eat(ctx, d.into_iter(), |x| {
                x.0.verify();
                x.1.get();
            });
        }
    }
    ctx.add("ends_of_life");
    ctx.add("parts_counted");
    let left = [live(Class::Key), live(Class::Val), live(Class::Agg)];
    check!(left == [0; 3], "{left:?} keys, values and aggregates are alive after the end of a tree (mode {mode}, {t} of {n} entries taken)");
}
fn parts(ctx: &mut Ctx) {
    one_of!(ctx,
        3 => parts_body::<u64, Zv, ()>(ctx),
        1 => parts_body::<u8, Zv, Za>(ctx),
        2 => parts_body::<Tk, Zv, ()>(ctx),
        1 => parts_body::<String, Zv, HeapFold>(ctx),
        2 => parts_body::<Tk, u64, ()>(ctx),
        1 => parts_body::<Tk, (), Za>(ctx),
        1 => parts_body::<u64, u64, Za>(ctx),
        1 => parts_body::<u64, u64, HeapFold>(ctx),
        1 => parts_body::<u64, Tv, ()>(ctx),
        1 => parts_body::<Zk, u64, ()>(ctx),
        1 => parts_body::<Zk, Zv, Za>(ctx),
        1 => parts_body::<(), Zv, ()>(ctx),
        1 => parts_body::<Zk, Tv, HeapFold>(ctx),
    )
}

fn set_body<K: KeyT>(ctx: &mut Ctx) {
    let target = ctx.size();
    let steps = ctx.steps(200 + 2 * target);
    let mut h: Hist<Set<K>, K, (), ()> = Hist::new(ctx, target);
    h.foreign = true;
    for _ in 0..steps {
        if ctx.late() {
            break;
        }
        let (_, r) = h.step(ctx);
        other(r);
        if ctx.rng.chance(1, 600) {
            h.d.clear();
            h.m = Model::new();
            check!(live(Class::Key) == 0, "{} keys are alive after a set was cleared", live(Class::Key));
        }
    }
    h.describe(ctx, "ownership in", "Set");
    let n = h.m.len();
    let mut t = 0;
    match ctx.rng.below(3) {
        0 => drop(h.d),
        1 => {
            let e = Set::<K>::default();
            drop(std::mem::replace(&mut h.d, e));
        }
        _ => {
            ctx.add("consumed");
            t = eat(ctx, h.d.into_iter(), |k| k.verify())
        }
    }
    ctx.add("ends_of_life");
    check!(live(Class::Key) == 0, "{} keys are alive after the end of a set ({t} of {n} keys taken)", live(Class::Key));
}

fn giant(ctx: &mut Ctx) {
    let h = Hist::<Tree<u64, Tv>, u64, Tv, ()>::giant_session(ctx, true, "ownership in", |_, h, what| {
        let (l, n) = (live(Class::Val), h.m.len() as i64);
        check!(l == n, "{l} values are alive with {n} entries present after {what}");
    });
    let n = h.m.len() as u64;
    ctx.add("ends_of_life");
    let (mode, taken) = end_tree(ctx, h.d);
    check!(
        live(Class::Val) == 0,
        "{} values are alive after the end of the collection (mode {mode}, {taken} of {n} items taken)",
        live(Class::Val)
    );
}

pub fn episode(ctx: &mut Ctx) {
    if ctx.giant() {
        return giant(ctx);
    }
    ledger_reserve(1 << 12);
    let (_, left) = ctx.measured(|ctx| {
        one_of!(ctx,
            5 => body::<Tree<Tk, Tv, HeapFold>, Tk, HeapFold>(ctx, end_tree),
            2 => body::<Tree<u64, Tv, Fold>, u64, Fold>(ctx, end_tree),
            2 => body::<Tree<String, Tv, HeapFold>, String, HeapFold>(ctx, end_tree),
            2 => body::<Map<Tk, Tv, HeapFold>, Tk, HeapFold>(ctx, end_map),
            1 => body::<Tree<(), Tv, HeapFold>, (), HeapFold>(ctx, end_tree),
            3 => set_body::<Tk>(ctx),
            1 => set_body::<Zk>(ctx),
            7 => parts(ctx),
        );
        ledger_reset();
        ledger_trim();
    });
    ctx.add("heap_balances_checked");
    check!(left <= 0, "{left} heap bytes stay allocated after everything was dropped");
}
