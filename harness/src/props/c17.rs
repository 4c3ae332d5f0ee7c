//! C17: results never depend on what was accessed before.
//! One collection is read all the time, aimed at the nodes about to change; a twin gets the same
//! modifications and is never read. Every answer is compared with the dictionary; a wrong one is
//! this property's when a collection with the same contents and another past answers differently.
use super::*;
use crate::dict::{Map, Set, Tree};
use crate::one_of;
use crate::types::*;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::group::{ExtractGroupSize, FromRef, GroupCount};
use sweep_bptree::augment::SearchAugmentation;
use sweep_bptree::tree::Cursor;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Q {
    Get(u64),
    GetOwned(u64),
    GetMut(u64),
    First,
    Last,
    Begin,
    End,
    /// the rest where the collection offers it
    CursorAt(u64),
    Up(u64),
    Down(u64),
    CFirst,
    CLast,
    Nth(u64),
    NthMut(u64),
    Key(u64),
    Rank(u64),
    Group(u64),
    /// the aggregate of everything
    Root,
}
type Ans = Option<(u64, u64)>;
/// None: not offered
type Extra<D> = fn(&mut D, Q) -> Option<Ans>;

fn ask<D, K, V, A>(d: &mut D, q: Q, extra: Extra<D>) -> Option<Ans>
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    let kv = |x: (&K, &V)| (x.0.o(), x.1.get());
    Some(match q {
        Q::Get(o) => K::with_q(o, |q| d.get(q).map(|v| (o, v.get()))),
        Q::GetOwned(o) => {
            let k = K::mk(o);
            d.get::<K>(&k).map(|v| (o, v.get()))
        }
        Q::GetMut(o) => K::with_q(o, |q| d.get_mut(q).map(|v| (o, v.get()))),
        Q::First => return d.first().map(|x| x.map(kv)),
        Q::Last => return d.last().map(|x| x.map(kv)),
        Q::Begin => d.iter().next().map(kv),
        Q::End => d.iter().next_back().map(kv),
        _ => return extra(d, q),
    })
}
fn truth(m: &Model<Pay>, q: Q) -> Ans {
    let p = |e: &(u64, Pay)| (e.0, e.1 .0);
    match q {
        Q::Get(o) | Q::GetOwned(o) | Q::GetMut(o) | Q::CursorAt(o) | Q::Key(o) => m.get(o).map(|v| (o, v.0)),
        Q::First | Q::Begin | Q::CFirst => m.e.first().map(p),
        Q::Last | Q::End | Q::CLast => m.e.last().map(p),
        Q::Up(o) => m.above(o).map(p),
        Q::Down(o) => m.below(o).map(p),
        Q::Nth(i) | Q::NthMut(i) => m.e.get(i as usize).map(p),
        Q::Rank(o) => Some(match m.find(o) {
            Ok(i) => (i as u64, 1),
            Err(i) => (i as u64, 0),
        }),
        Q::Group(o) => {
            let g = o / 11;
            let n = m.e[m.e.partition_point(|e| e.0 / 11 < g)..].iter().take_while(|e| e.0 / 11 == g).count();
            Some((n as u64, 0))
        }
        Q::Root => {
            let s = m.e.iter().fold(Sum::default(), |s, e| s.cat(Sum::one(e.0, e.1 .0)));
            Some((s.n, s.h))
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct El(u64);
impl<K: KeyT> FromRef<K> for El {
    fn from_ref(k: &K) -> Self {
        El(k.o() / 11)
    }
}
type Gc = GroupCount<El>;

struct Tw<D, K, V, A> {
    h: Hist<D, K, V, A>,
    /// same modifications, never read
    quiet: D,
    extra: Extra<D>,
    again: Option<fn(&D) -> D>,
    /// the two no longer share their whole history
    apart: bool,
}

impl<D, K, V, A> Tw<D, K, V, A>
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    fn fresh(m: &Model<Pay>, how: u64) -> D {
        match how {
            0 => D::bulk(m.e.iter().map(|e| (K::mk_tag(e.0, e.1 .1), V::mk(e.1 .0))).collect()),
            1 => {
                let mut d = D::create();
                for e in &m.e {
                    d.insert(K::mk_tag(e.0, e.1 .1), V::mk(e.1 .0));
                }
                d
            }
            _ => {
                let mut d = D::create();
                for e in m.e.iter().rev() {
                    d.insert(K::mk_tag(e.0, e.1 .1), V::mk(e.1 .0));
                }
                d
            }
        }
    }
    fn same(d: &D, m: &Model<Pay>) -> bool {
        let mut it = d.iter();
        m.e.iter().all(|e| it.next().is_some_and(|(k, v)| k.o() == e.0 && v.get() == e.1 .0)) && it.next().is_none()
    }
    /// the entries that are really there
    fn actual(d: &D) -> Model<Pay> {
        let mut e: Vec<(u64, Pay)> = d.iter().map(|(k, v)| (k.o(), (v.get(), k.tag().unwrap_or(0)))).collect();
        e.sort();
        e.dedup_by_key(|e| e.0);
        Model { e }
    }
    /// an entry that is there answers its lookup, as it would on any other collection with these entries
    fn contradiction(&mut self, ctx: &mut Ctx) {
        let e = Self::actual(&self.h.d).e;
        for x in &e {
            let got = K::with_q(x.0, |q| self.h.d.get(q).map(|v| v.get()));
            if got != Some(x.1 .0) {
                let f = Self::fresh(&Model { e: e.clone() }, 1);
                let y = K::with_q(x.0, |q| f.get(q).map(|v| v.get()));
                check!(got == y, "the lookup of #{} answers {got:?}, and {y:?} on a freshly built collection with the same {} entries", x.0, e.len());
            }
        }
        ctx.add("contents_asked_for");
    }
    fn query(&mut self, ctx: &mut Ctx, q: Q) {
        let (a, o) = match q {
            Q::Get(o) | Q::GetOwned(o) => (1, o),
            Q::GetMut(o) => (2, o),
            Q::CursorAt(o) | Q::Up(o) | Q::Down(o) => (3, o),
            _ => (4, 0),
        };
        ev("query", a, o);
        let Some(got) = base_op(true, || ask::<D, K, V, A>(&mut self.h.d, q, self.extra)) else { return };
        ctx.add("queries");
        let want = truth(&self.h.m, q);
        if got == want {
            return;
        }
        // is the answer a function of the contents?
        self.contradiction(ctx);
        let now = match Self::same(&self.h.d, &self.h.m) {
            true => self.h.m.clone(),
            false => Self::actual(&self.h.d),
        };
        for how in 0..3 {
            let mut f = Self::fresh(&now, how);
            let other = ask::<D, K, V, A>(&mut f, q, self.extra);
            if other != Some(got) {
                crate::fail!(
                    "{q:?} answers {got:?}, and {other:?} on a freshly built collection with the same {} entries",
                    now.len()
                );
            }
        }
        if !Self::same(&self.quiet, &self.h.m) {
            foreign(format!("{q:?} is {got:?}; but the unread twin also lost or changed entries"));
        }
        let t = ask::<D, K, V, A>(&mut self.quiet, q, self.extra);
        if t != Some(got) {
            crate::fail!("{q:?} answers {got:?}, and {t:?} on a collection with the same history that was never read");
        }
        foreign(format!("{q:?} is {got:?} for any history, expected {want:?}"))
    }
    /// a query aimed at or near a key
    fn near(&self, ctx: &mut Ctx, o: u64) -> Q {
        let m = &self.h.m;
        let n = ctx.n as i64;
        let p = match m.find(o) {
            Ok(i) | Err(i) => i as i64,
        };
        let d = match ctx.rng.below(7) {
            0 => 0,
            1 => 1,
            2 => -1,
            3 => ctx.rng.range(0, 2 * n as u64) as i64 - n,
            4 => ctx.rng.range(0, n as u64) as i64 - n / 2,
            5 => n / 2 - ctx.rng.idx(3) as i64,
            _ => ctx.rng.idx(3) as i64 - n / 2,
        };
        let t = if m.is_empty() {
            o
        } else {
            let t = m.at((p + d).clamp(0, m.len() as i64 - 1) as usize);
            match ctx.rng.below(6) {
                0 => t + 1,
                1 => t.saturating_sub(1),
                2 => o,
                _ => t,
            }
        };
        let t = t.min(K::MAXO - 1);
        let i = (p + d).max(0) as u64;
        match ctx.rng.below(22) {
            0..=4 => Q::Get(t),
            5 => Q::GetOwned(t),
            6 | 7 => Q::GetMut(t),
            8 | 9 => Q::CursorAt(t),
            10 => Q::Up(t),
            11 => Q::Down(t),
            12 => Q::Nth(i),
            13 => Q::NthMut(i),
            14 => Q::Key(t),
            15 => Q::Rank(t),
            16 => Q::Group(t),
            17 => Q::First,
            18 => Q::Last,
            19 => Q::CFirst,
            20 => Q::CLast,
            _ if ctx.rng.chance(1, 2) => Q::Begin,
            _ => Q::End,
        }
    }
    fn modify(&mut self, ctx: &mut Ctx, a: Act) {
        let (Act::Ins(o) | Act::Del(o)) = a;
        let before = self.h.m.get(o).map(|p| p.0);
        let (v, tag) = {
            let h = &mut self.h;
            h.vc += 1;
            h.tc += 1;
            (V::norm(mix(h.vc, 9) >> 20), h.tc)
        };
        ev(if matches!(a, Act::Ins(_)) { "insert" } else { "remove" }, o, v);
        let go = |d: &mut D| match a {
            Act::Ins(_) => d.insert(K::mk_tag(o, tag), V::mk(v)).map(|v| v.get()),
            Act::Del(_) if o % 2 == 0 => K::with_q(o, |q| d.remove(q)).map(|v| v.get()),
            Act::Del(_) => {
                let k = K::mk(o);
                d.remove::<K>(&k).map(|v| v.get())
            }
        };
        let q = base_op(true, || go(&mut self.quiet));
        let g = base_op(true, || go(&mut self.h.d));
        ctx.add("modifications");
        // a different answer to the same question, or had the entry been lost before it?
        let held = |d: &D| {
            let n = d.iter().filter(|e| e.0.o() == o).count();
            before.is_some() && n >= if matches!(a, Act::Ins(_)) { 2 } else { 1 }
        };
        if g != before || q != before {
            self.contradiction(ctx);
        }
        if self.apart && (g != before && !held(&self.h.d) || q != before && !held(&self.quiet)) {
            foreign(format!("{a:?} answers {g:?} and {q:?}, expected {before:?}: the entries themselves differ"));
        }
        if g != before {
            if q != before {
                // both wrong: does the same change answer so on any collection with these contents?
                let mut f = Self::fresh(&self.h.m, 1);
                let x = go(&mut f);
                if x == g {
                    foreign(format!("{a:?} answers {g:?} for any history, expected {before:?}"));
                }
                crate::fail!("{a:?} answers {g:?}, and {x:?} on a freshly built collection with the same entries");
            }
            crate::fail!("{a:?} answers {g:?}, and {q:?} on the same collection when nothing was read before");
        }
        if q != before {
            // the twin only differs by not being read
            crate::fail!("{a:?} answers {q:?} when nothing was read before, and {g:?} on the same collection otherwise");
        }
        match a {
            Act::Ins(_) => match self.h.m.get_mut(o) {
                Some(p) => p.0 = v,
                None => {
                    self.h.m.insert(o, (v, tag));
                }
            },
            Act::Del(_) => {
                self.h.m.remove(o);
            }
        }
        self.h.peak = self.h.peak.max(self.h.m.len());
        self.lens();
    }
    fn lens(&self) {
        let (a, b, n) = (self.h.d.len(), self.quiet.len(), self.h.m.len());
        if a != n || b != n {
            check!(a == b, "the length is {a}, without the reads it is {b}, entries present {n}");
            foreign(format!("wrong length {a} for {n} entries"));
        }
    }
    /// the same place again and again, then others
    fn hammer(&mut self, ctx: &mut Ctx) {
        let o = self.h.probe_key(ctx);
        let n = if ctx.miri() { 70 } else { ctx.rng.pick(&[70, 150, 300, 300, 1100, 5000]) };
        let qs: Vec<Q> = (0..ctx.rng.pick(&[1, 1, 1, 2, 5])).map(|_| self.near(ctx, o)).collect();
        ctx.add("places_read_again_and_again");
        for i in 0..n {
            let q = qs[i % qs.len()];
            if i < qs.len() || i % 64 == 0 {
                self.query(ctx, q);
            } else {
                std::hint::black_box(ask::<D, K, V, A>(&mut self.h.d, q, self.extra));
            }
        }
        for i in 0..12 {
            let o2 = if i % 3 == 0 { o } else { self.h.probe_key(ctx) };
            let q = self.near(ctx, o2);
            self.query(ctx, q);
            if i % 4 == 3 {
                for _ in 0..n {
                    std::hint::black_box(ask::<D, K, V, A>(&mut self.h.d, qs[0], self.extra));
                }
            }
        }
    }
    /// contents and every key, in an order that jumps about
    fn sweep(&mut self, ctx: &mut Ctx) {
        ctx.add("audits");
        if !Self::same(&self.h.d, &self.h.m) {
            if self.apart || !Self::same(&self.quiet, &self.h.m) {
                self.contradiction(ctx);
                foreign("entries were lost or changed, also without any read".into());
            }
            crate::fail!("the entries differ from those of the same history without reads ({} entries)", self.h.m.len());
        }
        if self.h.m.is_empty() {
            return;
        }
        let n = self.h.m.len();
        let step = ctx.rng.pick(&[1, ctx.n / 2, ctx.n, ctx.n + 1, 7 * ctx.n + 3]).max(1);
        let mut i = ctx.rng.idx(n);
        for _ in 0..n.min(600) {
            i = (i + step) % n;
            let o = self.h.m.at(i);
            let q = if i % 5 == 0 { self.near(ctx, o) } else { Q::Get(o) };
            self.query(ctx, q);
        }
        self.query(ctx, Q::Root);
        if n <= 64 * ctx.n && ctx.rng.chance(1, 4) {
            // the other way round: nothing was ever read here until now
            if !Self::same(&self.quiet, &self.h.m) {
                if self.apart {
                    foreign("entries were lost or changed".into());
                }
                crate::fail!("without any read the collection holds other entries than with reads");
            }
        }
    }
}

fn body<D, K, V, A>(ctx: &mut Ctx, extra: Extra<D>, again: Option<fn(&D) -> D>, take: Option<fn(&mut D, u64) -> Ans>)
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    let target = ctx.size();
    let h: Hist<D, K, V, A> = Hist::new(ctx, target);
    let mut t = Tw { h, quiet: D::create(), extra, again, apart: false };
    let steps = if ctx.miri() { 60 + 2 * target } else { ctx.steps(600 + 8 * target) };
    // how much is read
    let eager = ctx.rng.pick(&[1, 3, 8]);
    for i in 0..steps {
        if ctx.late() {
            break;
        }
        let a = t.h.pick(ctx);
        let (Act::Ins(o) | Act::Del(o)) = a;
        let building = t.h.m.len() * 2 < target && i % 4 != 0;
        // remembered positions: aimed at the node about to change, its neighbours, and others
        if !building {
            for _ in 0..ctx.rng.below(3) {
                let q = t.near(ctx, o);
                t.query(ctx, q);
            }
        }
        match ctx.rng.below(400) {
            0 if ctx.rng.chance(1, 6) => {
                if t.h.d.clear() {
                    t.quiet.clear();
                    t.h.m = Model::new();
                    ctx.add("clears");
                }
            }
            1 | 2 => {
                if let Some(c) = t.again {
                    // the remembered position travels with the copy, the node it names may change
                    let mut copy = c(&t.h.d);
                    t.quiet = c(&t.quiet);
                    ctx.add("clones");
                    if ctx.rng.chance(1, 2) {
                        std::mem::swap(&mut copy, &mut t.h.d);
                    }
                    let old = t.h.m.clone_entries();
                    for _ in 0..ctx.rng.below(40) {
                        let a = t.h.pick(ctx);
                        t.modify(ctx, a);
                    }
                    let (mut d, m2) = (copy, Model { e: old });
                    std::mem::swap(&mut d, &mut t.h.d);
                    let m = std::mem::replace(&mut t.h.m, m2);
                    // the quiet twin moved on with the other one
                    let moved = std::mem::replace(&mut t.quiet, Tw::<D, K, V, A>::fresh(&t.h.m, 1));
                    for _ in 0..20 {
                        let o = t.h.probe_key(ctx);
                        let q = t.near(ctx, o);
                        t.query(ctx, q);
                    }
                    t.quiet = moved;
                    t.h.m = m;
                    t.h.d = d;
                }
            }
            3 => {
                // built anew: nothing of the past may show
                let how = ctx.rng.below(3);
                t.h.d = Tw::<D, K, V, A>::fresh(&t.h.m, how);
                t.apart = true;
                ctx.add("rebuilt");
            }
            31..=33 => t.hammer(ctx),
            4..=30 => {
                if let Some(f) = take {
                    let i = ctx.rng.idx(t.h.m.len().max(1)) as u64;
                    let want = t.h.m.e.get(i as usize).map(|e| (e.0, e.1 .0));
                    if let Some(w) = want {
                        for _ in 0..ctx.rng.below(3) {
                            let q = t.near(ctx, w.0);
                            t.query(ctx, q);
                        }
                    }
                    ev("take", i, 0);
                    let b = base_op(true, || f(&mut t.quiet, i));
                    let g = base_op(true, || f(&mut t.h.d, i));
                    ctx.add("removals_by_position");
                    if b != g {
                        crate::fail!("removal at {i} takes {g:?}, and {b:?} when nothing was read before");
                    }
                    if g != want {
                        let mut x = Tw::<D, K, V, A>::fresh(&t.h.m, 1);
                        let x = f(&mut x, i);
                        if x == g {
                            foreign("wrong removal for any history".into());
                        }
                        crate::fail!("removal at {i} takes {g:?}, and {x:?} on a fresh collection with the same entries");
                    }
                    if let Some(w) = want {
                        t.h.m.remove(w.0);
                        t.lens();
                        for _ in 0..3 {
                            let q = t.near(ctx, w.0);
                            t.query(ctx, q);
                        }
                    }
                    continue;
                }
            }
            _ => {}
        }
        t.modify(ctx, a);
        if !building {
            for _ in 0..eager {
                let q = t.near(ctx, o);
                t.query(ctx, q);
            }
        }
        if due(ctx, t.h.m.len(), 1) {
            t.sweep(ctx);
        }
    }
    t.sweep(ctx);
    t.h.describe(ctx, "read between all changes", coll_name(D::TREE));
}

fn tree_cursor<K: KeyT, V: ValT, A: Augmentation<K, V>>(d: &mut Tree<K, V, A>, q: Q) -> Option<Ans> {
    let d = &*d;
    let cv = |x: (Cursor<K>, &V)| (x.0.key().o(), x.1.get());
    Some(match q {
        Q::CursorAt(o) => {
            let k = K::mk(o);
            match d.get_cursor(&k) {
                Some((c, v)) => {
                    let (a, b) = (v.map(|v| (o, v.get())), c.value(d).map(|v| (o, v.get())));
                    if a == b {
                        a
                    } else {
                        Some((u64::MAX, u64::MAX))
                    }
                }
                None => None,
            }
        }
        Q::Up(o) | Q::Down(o) => {
            let k = K::mk(o);
            // a cursor on an empty tree may or may not exist
            let c = d.get_cursor(&k)?.0;
            if matches!(q, Q::Up(_)) {
                c.next_with_value(d).map(cv)
            } else {
                c.prev_with_value(d).map(cv)
            }
        }
        Q::CFirst => Cursor::first(d).map(cv),
        Q::CLast => Cursor::last(d).map(cv),
        _ => return None,
    })
}
fn tree_count<K: KeyT, V: ValT>(d: &mut Tree<K, V, Count>, q: Q) -> Option<Ans> {
    counted(d, q).or_else(|| tree_cursor(d, q))
}
fn counted<D: Dict<K, V, Count>, K: KeyT, V: ValT>(d: &mut D, q: Q) -> Option<Ans> {
    Some(match q {
        Q::Nth(i) => d.find(i as usize).map(|x| (x.0.o(), x.1.get())),
        // the key is not shown: look it up by position first
        Q::NthMut(i) => {
            let k = d.find(i as usize).map(|x| x.0.o());
            let v = d.find_mut(i as usize).map(|v| v.get());
            k.zip(v)
        }
        Q::Rank(o) => {
            let k = K::mk(o);
            Some(match d.rank(&k) {
                Ok(i) => (i as u64, 1),
                Err(i) => (i as u64, 0),
            })
        }
        _ => return None,
    })
}
fn map_group<K: KeyT, V: ValT>(d: &mut Map<K, V, Gc>, q: Q) -> Option<Ans> {
    Some(match q {
        Q::Group(o) => {
            // a group without members may be reported as nothing
            let n = d.visit(ExtractGroupSize::<El, K>::new(El(o / 11)));
            Some((n.unwrap_or(0) as u64, 0))
        }
        _ => return None,
    })
}
fn find<D: Dict<K, V, A>, K: KeyT, V: ValT, A: AggT<K, V> + SearchAugmentation<K, V, Query = Find>>(
    d: &mut D,
    q: Q,
) -> Option<Ans> {
    Some(match q {
        Q::Nth(i) => d.find(Find::Nth(i)).map(|x| (x.0.o(), x.1.get())),
        Q::NthMut(i) => {
            let k = d.find(Find::Nth(i)).map(|x| x.0.o());
            let v = d.find_mut(Find::Nth(i)).map(|v| v.get());
            k.zip(v)
        }
        Q::Key(o) => d.find(Find::ByKey(o)).map(|x| (x.0.o(), x.1.get())),
        Q::Root => d.root_agg().sum().map(|s| (s.n, s.h)),
        _ => return None,
    })
}
fn tree_find<K: KeyT, V: ValT>(d: &mut Tree<K, V, Fold>, q: Q) -> Option<Ans> {
    find(d, q).or_else(|| tree_cursor(d, q))
}
fn take_find<D: Dict<K, V, Fold>, K: KeyT, V: ValT>(d: &mut D, i: u64) -> Ans {
    d.take(Find::Nth(i)).map(|x| (x.0.o(), x.1.get()))
}
fn take_count<D: Dict<K, V, Count>, K: KeyT, V: ValT>(d: &mut D, i: u64) -> Ans {
    d.take(i as usize).map(|x| (x.0.o(), x.1.get()))
}
fn nothing<D>(_: &mut D, _: Q) -> Option<Ans> {
    None
}
fn clone<K: KeyT, V: ValT + Clone, A: Augmentation<K, V>>(d: &Tree<K, V, A>) -> Tree<K, V, A> {
    d.clone()
}

pub fn episode(ctx: &mut Ctx) {
    one_of!(ctx,
        4 => body::<Tree<u64, u64, Fold>, u64, u64, Fold>(ctx, tree_find, Some(clone), Some(take_find)),
        3 => body::<Tree<u64, u64, ()>, u64, u64, ()>(ctx, tree_cursor, Some(clone), None),
        3 => body::<Tree<Tk, Tv, Count>, Tk, Tv, Count>(ctx, tree_count, Some(clone), Some(take_count)),
        2 => body::<Tree<String, String, ()>, String, String, ()>(ctx, tree_cursor, Some(clone), None),
        2 => body::<Map<u64, u64, Count>, u64, u64, Count>(ctx, counted, None, Some(take_count)),
        2 => body::<Map<String, u64, ()>, String, u64, ()>(ctx, nothing, None, None),
        1 => body::<Map<(u32, u16), u64, Fold>, (u32, u16), u64, Fold>(ctx, find, None, Some(take_find)),
        2 => body::<Map<u64, u64, Gc>, u64, u64, Gc>(ctx, map_group, None, None),
        2 => body::<Set<u64>, u64, (), ()>(ctx, nothing, None, None),
        1 => body::<Tree<u8, u64, ()>, u8, u64, ()>(ctx, tree_cursor, Some(clone), None),
    );
}
