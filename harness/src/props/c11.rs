//! C11: a cloned collection is equal to and independent of the original.
use super::*;
use crate::dict::{snapshot, Tree};
use crate::types::*;
use crate::one_of;
use sweep_bptree::augment::count::Count;
use sweep_bptree::tree::Cursor;

type H<K, V, A> = Hist<Tree<K, V, A>, K, V, A>;

fn whole<K: KeyT, V: ValT, A: AggT<K, V>>(ctx: &mut Ctx, h: &H<K, V, A>, who: &str, q: fn(&mut Ctx, &H<K, V, A>) -> Res) {
    let r = h
        .contents_ok(ctx, true)
        .and_then(|_| h.len_ok())
        .and_then(|_| h.ends_ok(ctx))
        .and_then(|_| h.lookups_ok(ctx, if h.m.len() > 500 { 7 } else { 1 }))
        .and_then(|_| q(ctx, h));
    if let Err(e) = r {
        crate::fail!("{who}: {e}");
    }
    // every subtree aggregate and the leaf chain backwards
    if let Some(s) = h.d.root_agg().sum() {
        let w = h.m.e.iter().fold(Sum::default(), |s, x| s.cat(Sum::one(x.0, x.1 .0)));
        check!(s == w, "{who}: the aggregate is {s:?}, its entries give {w:?}");
    }
    let b = h.d.iter().rev().map(|x| x.0.o());
    check!(b.eq(h.m.e.iter().rev().map(|x| x.0)), "{who}: backward iteration differs from its entries");
    let n = h.m.len();
    for _ in 0..4.min(n) {
        let i = ctx.rng.idx(n);
        let o = h.m.at(i);
        let Some((c, v)) = h.d.get_cursor(&K::mk(o)) else { crate::fail!("{who}: no cursor for present key #{o}") };
        check!(v.map(|v| v.get()) == Some(h.m.e[i].1 .0), "{who}: cursor value at #{o} differs");
        let (x, y) = (c.next(&h.d).map(|c| c.key().o()), c.prev(&h.d).map(|c| c.key().o()));
        let (wx, wy) = (h.m.above(o).map(|e| e.0), h.m.below(o).map(|e| e.0));
        check!(x == wx && y == wy, "{who}: the neighbours of #{o} are {y:?} and {x:?}, expected {wy:?} and {wx:?}");
    }
    let f = Cursor::last(&h.d).map(|c| c.0.key().o());
    check!(f == h.m.e.last().map(|x| x.0), "{who}: the last cursor is at {f:?}");
    ctx.add("whole_collections_compared");
}

fn body<K: KeyT, V: ValT + Clone, A: AggT<K, V>>(ctx: &mut Ctx, q: fn(&mut Ctx, &H<K, V, A>) -> Res) {
    let target = ctx.size().min(if ctx.n > 16 { 9000 } else { 3000 });
    let mut a: H<K, V, A> = Hist::new(ctx, target);
    a.foreign = true;
    let mut generations = 0;
    let rounds = if ctx.miri() { 2 } else { 5 };
    for _ in 0..rounds {
        if ctx.late() {
            break;
        }
        let x = ctx.rng.below(target as u64 + 1) as usize;
        match ctx.rng.below(4) {
            0 => {}
            1 => {
                for _ in 0..x / 4 {
                    let (_, r) = a.step(ctx);
                    other(r);
                }
            }
            2 => {
                // thinned out, with many unused node slots
                let x = x / 2;
                a.grow(ctx, x);
                while a.m.len() > target / 8 {
                    let o = a.m.at(ctx.rng.idx(a.m.len()));
                    let r = a.del(ctx, o);
                    other(r);
                }
            }
            _ => a.grow(ctx, x),
        }
        if let Err(e) = a.contents_ok(ctx, false) {
            foreign(e);
        }
        ev("clone", a.m.len() as u64, 0);
        let before = (live(Class::Key), live(Class::Val));
        // the copy may also be made over an older collection
        let old = (ctx.rng.chance(1, 3)).then(|| {
            let t = ctx.rng.pick(&[0, 1, ctx.n, target / 4, target]);
            let mut o: H<K, V, A> = Hist::new(ctx, t.max(1));
            o.foreign = true;
            o.grow(ctx, t);
            if ctx.rng.chance(1, 4) {
                o.d.clear();
            }
            o.d
        });
        let d = base_op(false, || match old {
            None => a.d.clone(),
            Some(mut o) => {
                o.clone_from(&a.d);
                o
            }
        });
        ctx.add("clones");
        generations += 1;
        let n = a.m.len() as i64;
        check!(
            live(Class::Val) == before.1 * 2 || V::NAME != "tracked",
            "cloning a collection of {n} values left {} alive, {} before",
            live(Class::Val),
            before.1
        );
        let mut b: H<K, V, A> = Hist::with(ctx, d, a.m.clone(), target);
        b.vc = a.vc + 1_000_000;
        b.tc = a.tc;
        a.foreign = false;
        whole(ctx, &b, "the clone, right after cloning", q);
        whole(ctx, &a, "the original, right after cloning", q);
        if n < 3000 {
            // same shape is not promised, but the subtrees must be its own
            let s = snapshot(&b.d, |_: &A| (), 4 * a.m.len() + 64);
            ctx.st.shape(s.hash());
        }
        // diverge
        let steps = ctx.steps(100 + target / 2);
        let bias = ctx.rng.pick(&[0u64, 1, 5, 9, 10]);
        for _ in 0..steps {
            if ctx.late() {
                break;
            }
            let on_b = ctx.rng.below(10) < bias;
            let (name, h, o) = if on_b { ("the clone", &mut b, &a) } else { ("the original", &mut a, &b) };
            let (act, r) = h.step(ctx);
            ctx.add("diverging_operations");
            if let Err(e) = r {
                crate::fail!("{name}, after cloning: {e}");
            }
            let (Act::Ins(k) | Act::Del(k)) = act;
            // the same key on the untouched side
            if let Err(e) = o.get_ok(ctx, k).and_then(|_| o.len_ok()) {
                crate::fail!("an operation on key #{k} of {name} changed the other collection: {e}");
            }
            if ctx.rng.chance(1, 500) {
                h.d.clear();
                h.m = Model::new();
                ctx.add("clears");
                whole(ctx, if on_b { &a } else { &b }, "the other collection, after a clear", q);
            }
            let n = a.m.len().max(b.m.len());
            if due(ctx, n, 1) && ctx.rng.chance(1, 3) {
                whole(ctx, &a, "the original", q);
                whole(ctx, &b, "the clone", q);
            }
        }
        whole(ctx, &a, "the original", q);
        whole(ctx, &b, "the clone", q);
        // one of them goes, in some way
        let keep_b = ctx.rng.chance(1, 2);
        let (keep, gone) = if keep_b { (b, a) } else { (a, b) };
        let who = if keep_b { "the clone, after the original is gone" } else { "the original, after the clone is gone" };
        let gn = gone.m.len();
        match ctx.rng.below(3) {
            0 => drop(gone),
            1 => {
                let k = ctx.rng.idx(gn + 1);
                let v: Vec<_> = gone.d.into_iter().take(k).collect();
                check!(v.len() == k, "consuming gave {} of {gn} items", v.len());
                whole(ctx, &keep, who, q);
            }
            _ => {
                let mut gone = gone;
                gone.d.clear();
                whole(ctx, &keep, who, q);
            }
        }
        whole(ctx, &keep, who, q);
        if V::NAME == "tracked" {
            let l = live(Class::Val);
            check!(l == keep.m.len() as i64, "{l} values are alive after one of two collections is gone, the other has {}", keep.m.len());
        }
        a = keep;
    }
    a.describe(ctx, "clones of", "BPlusTree");
    ctx.note(generations);
    drop(a);
    check!(
        live(Class::Key) == 0 && live(Class::Val) == 0 && live(Class::Agg) == 0,
        "{} keys, {} values, {} aggregates are alive after both collections are gone",
        live(Class::Key),
        live(Class::Val),
        live(Class::Agg)
    );
}

fn nothing<K: KeyT, V: ValT, A: AggT<K, V>>(_: &mut Ctx, _: &H<K, V, A>) -> Res {
    Ok(())
}
fn counted(ctx: &mut Ctx, h: &H<u64, u64, Count>) -> Res {
    let n = h.m.len();
    for _ in 0..10 {
        let i = ctx.rng.below(n as u64 + 1) as usize;
        let g = h.d.find(i).map(|x| *x.0);
        if g != h.m.e.get(i).map(|x| x.0) {
            return Err(format!("position {i} is {g:?}"));
        }
        let o = h.probe_key(ctx);
        let r: Result<usize, usize> = h.d.rank(&o);
        if r != h.m.find(o) {
            return Err(format!("rank of #{o} is {r:?}"));
        }
    }
    Ok(())
}
fn searched(ctx: &mut Ctx, h: &H<Tk, Tv, HeapFold>) -> Res {
    let n = h.m.len();
    for _ in 0..6 {
        let i = ctx.rng.below(n as u64 + 1);
        let g = h.d.find(Find::Nth(i)).map(|x| x.0.o());
        if g != h.m.e.get(i as usize).map(|x| x.0) {
            return Err(format!("the search for entry {i} found {g:?}"));
        }
    }
    Ok(())
}

fn giant<A: AggT<u64, u64>>(ctx: &mut Ctx) {
    let mut a = H::<u64, u64, A>::giant(ctx, true);
    for _ in 0..ctx.rng.range(1, 3) {
        if ctx.late() {
            break;
        }
        if ctx.rng.chance(1, 2) {
            a.any_sweep(ctx);
        }
        if let Err(e) = a.contents_ok(ctx, false) {
            foreign(e);
        }
        let d = a.d.clone();
        ctx.add("clones");
        let t = a.sh.target;
        let mut b: H<u64, u64, A> = Hist::with(ctx, d, a.m.clone(), t);
        b.sh.dom = a.sh.dom;
        b.vc = a.vc + 1_000_000;
        whole(ctx, &b, "the clone, right after cloning", nothing);
        a.foreign = false;
        if ctx.rng.chance(1, 2) {
            std::mem::swap(&mut a, &mut b);
        }
        a.any_sweep(ctx);
        whole(ctx, &b, "the other collection, after a sweep", nothing);
        b.any_sweep(ctx);
        whole(ctx, &a, "the collection, after a sweep over the other one", nothing);
        drop(b);
        whole(ctx, &a, "the collection, after the other one is gone", nothing);
        a.foreign = true;
    }
    a.describe(ctx, "clones of", "BPlusTree");
}

/// Keys, values and aggregates that are handles of cells in an arena: no destructor, but a `Clone` that
/// matters. A collection that copies such a thing bit by bit shares a cell with its clone.
mod arena {
    use std::cell::RefCell;
    use std::cmp::Ordering;
    use sweep_bptree::augment::{Augmentation, SearchAugmentation};
    thread_local!(static CELLS: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) });
    fn alloc(v: u64) -> usize {
        CELLS.with(|c| {
            let mut c = c.borrow_mut();
            c.push(v);
            c.len() - 1
        })
    }
    pub fn reset() {
        CELLS.with(|c| c.borrow_mut().clear());
    }
    #[derive(Debug)]
    pub struct Cell(usize);
    impl Cell {
        pub fn new(v: u64) -> Self {
            Cell(alloc(v))
        }
        pub fn id(&self) -> usize {
            self.0
        }
        pub fn get(&self) -> u64 {
            CELLS.with(|c| c.borrow()[self.0])
        }
        pub fn set(&self, v: u64) {
            CELLS.with(|c| c.borrow_mut()[self.0] = v)
        }
    }
    impl Clone for Cell {
        fn clone(&self) -> Self {
            Cell::new(self.get())
        }
    }
    impl PartialEq for Cell {
        fn eq(&self, o: &Cell) -> bool {
            self.get() == o.get()
        }
    }
    impl Eq for Cell {}
    impl PartialOrd for Cell {
        fn partial_cmp(&self, o: &Cell) -> Option<Ordering> {
            Some(self.cmp(o))
        }
    }
    impl Ord for Cell {
        fn cmp(&self, o: &Cell) -> Ordering {
            self.get().cmp(&o.get())
        }
    }
    /// number of entries
    #[derive(Clone, Debug)]
    pub struct Num(pub Cell);
    impl Default for Num {
        fn default() -> Self {
            Num(Cell::new(0))
        }
    }
    impl<K: sweep_bptree::Key, V> Augmentation<K, V> for Num {
        fn from_leaf(keys: &[K], _: &[V]) -> Self {
            Num(Cell::new(keys.len() as u64))
        }
        fn from_inner(_: &[K], n: &[Self]) -> Self {
            Num(Cell::new(n.iter().map(|a| a.0.get()).sum()))
        }
    }
    impl<K: sweep_bptree::Key, V> SearchAugmentation<K, V> for Num {
        type Query = u64;
        fn locate_in_leaf(i: u64, keys: &[K], _: &[V]) -> Option<usize> {
            ((i as usize) < keys.len()).then_some(i as usize)
        }
        fn locate_in_inner(mut i: u64, _: &[K], n: &[Self]) -> Option<(usize, u64)> {
            for (c, a) in n.iter().enumerate() {
                let n = a.0.get();
                if i < n {
                    return Some((c, i));
                }
                i -= n;
            }
            None
        }
    }
}

fn handles(ctx: &mut Ctx) {
    use arena::{Cell, Num};
    type T = Tree<Cell, Cell, Num>;
    arena::reset();
    let n = (ctx.size() as u64).min(if ctx.miri() { 60 } else { 3000 });
    let mut m = std::collections::BTreeMap::new();
    let mut a: T = if ctx.rng.chance(1, 2) {
        let v: Vec<_> = (0..n).map(|i| (i * 2, i + 1000)).collect();
        m.extend(v.iter().copied());
        T::bulk_load(v.into_iter().map(|(k, v)| (Cell::new(k), Cell::new(v))).collect())
    } else {
        T::new(Default::default())
    };
    let churn = |ctx: &mut Ctx, t: &mut T, m: &mut std::collections::BTreeMap<u64, u64>, steps: u64, who: &str| {
        let bias = ctx.rng.pick(&[2u64, 5, 8]);
        for s in 0..steps {
            let k = ctx.rng.below(2 * n + 2);
            if ctx.rng.below(10) < bias {
                let (g, w) = (t.insert(Cell::new(k), Cell::new(s)).map(|v| v.get()), m.insert(k, s));
                check!(g == w, "{who}: the insertion of {k} replaced {g:?}, expected {w:?}");
            } else {
                let (g, w) = (t.remove(&Cell::new(k)).map(|v| v.get()), m.remove(&k));
                check!(g == w, "{who}: the removal of {k} gave {g:?}, expected {w:?}");
            }
            ctx.add("diverging_operations");
        }
    };
    churn(ctx, &mut a, &mut m, n, "the original, before cloning");
    let same = |ctx: &mut Ctx, t: &T, m: &std::collections::BTreeMap<u64, u64>, who: &str| {
        check!(t.len() == m.len(), "{who} has {} entries, expected {}", t.len(), m.len());
        let g = t.iter().map(|(k, v)| (k.get(), v.get()));
        check!(g.eq(m.iter().map(|(k, v)| (*k, *v))), "{who}: the entries differ from what was put in");
        let c = t.root_augmentation().0.get();
        check!(c == m.len() as u64, "{who}: the aggregate is {c}, expected {}", m.len());
        for (i, (k, v)) in m.iter().enumerate() {
            if i % 3 == 0 {
                let g = t.get(&Cell::new(*k)).map(|v| v.get());
                check!(g == Some(*v), "{who}: key {k} has the value {g:?}, expected {v}");
                let g = t.get_by_augmentation(i as u64).map(|x| x.0.get());
                check!(g == Some(*k), "{who}: position {i} has the key {g:?}, expected {k}");
            }
        }
        ctx.add("whole_collections_compared");
    };
    let b = if ctx.rng.chance(1, 3) {
        let mut b = T::bulk_load((0..ctx.rng.below(n + 1)).map(|i| (Cell::new(i), Cell::new(i))).collect());
        b.clone_from(&a);
        b
    } else {
        a.clone()
    };
    ctx.add("clones");
    let mb = m.clone();
    same(ctx, &b, &mb, "the clone, right after cloning");
    let mut ids: Vec<usize> = a.iter().chain(b.iter()).flat_map(|(k, v)| [k.id(), v.id()]).collect();
    ids.extend([a.root_augmentation().0.id(), b.root_augmentation().0.id()]);
    let all = ids.len();
    ids.sort_unstable();
    ids.dedup();
    check!(ids.len() == all, "{} of {all} keys and values of a collection and its clone are bitwise copies of another one", all - ids.len());
    ctx.st.add("handles", all as u64);
    let ((mut x, mut mx, nx), (y, my, ny)) = if ctx.rng.chance(1, 2) {
        ((a, m, "the original"), (b, mb, "the clone"))
    } else {
        ((b, mb, "the clone"), (a, m, "the original"))
    };
    for (k, v) in mx.iter_mut() {
        let Some(c) = x.get_mut(&Cell::new(*k)) else { crate::fail!("{nx}: no value for key {k}") };
        *v += 1_000_000;
        c.set(*v);
    }
    same(ctx, &y, &my, ny);
    let steps = ctx.steps(n as usize) as u64;
    churn(ctx, &mut x, &mut mx, steps, nx);
    same(ctx, &x, &mx, nx);
    same(ctx, &y, &my, ny);
    // everything that comes out of one of them is wiped
    x.root_augmentation().0.set(7);
    for (k, v) in x {
        k.set(u64::MAX);
        v.set(u64::MAX);
    }
    same(ctx, &y, &my, ny);
    ctx.note(n);
}

pub fn episode(ctx: &mut Ctx) {
    if ctx.giant() {
        return one_of!(ctx, 1 => giant::<()>(ctx), 1 => giant::<Fold>(ctx));
    }
    one_of!(ctx,
        1 => handles(ctx),
        4 => body::<u64, u64, Fold>(ctx, nothing),
        4 => body::<u64, u64, Count>(ctx, counted),
        5 => body::<Tk, Tv, HeapFold>(ctx, searched),
        2 => body::<String, String, ()>(ctx, nothing),
        1 => body::<(), u64, ()>(ctx, nothing),
        1 => body::<u64, Zv, Za>(ctx, nothing),
    );
}
