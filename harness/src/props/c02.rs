//! C02: iteration yields every live entry exactly once, in order, from both ends.
use super::*;
use crate::dict::{Map, Set, Tree};
use crate::types::*;
use crate::one_of;

type Item = (u64, u64);

/// `map` that hands every call on to the iterator itself, so that its own versions of these
/// methods are run (the `map` of the standard library reduces most of them to `next`)
#[derive(Clone)]
struct Thru<I, F>(I, F);
impl<I: Iterator, F: Fn(I::Item) -> Item> Iterator for Thru<I, F> {
    type Item = Item;
    fn next(&mut self) -> Option<Item> {
        self.0.next().map(&self.1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn nth(&mut self, n: usize) -> Option<Item> {
        self.0.nth(n).map(&self.1)
    }
    fn count(self) -> usize {
        self.0.count()
    }
    fn last(self) -> Option<Item> {
        self.0.last().map(self.1)
    }
    fn fold<B, G: FnMut(B, Item) -> B>(self, b: B, mut g: G) -> B {
        let f = self.1;
        self.0.fold(b, |b, x| g(b, f(x)))
    }
    fn for_each<G: FnMut(Item)>(self, mut g: G) {
        let f = self.1;
        self.0.for_each(|x| g(f(x)))
    }
    fn position<P: FnMut(Item) -> bool>(&mut self, mut p: P) -> Option<usize> {
        let f = &self.1;
        self.0.position(|x| p(f(x)))
    }
    fn all<P: FnMut(Item) -> bool>(&mut self, mut p: P) -> bool {
        let f = &self.1;
        self.0.all(|x| p(f(x)))
    }
    fn any<P: FnMut(Item) -> bool>(&mut self, mut p: P) -> bool {
        let f = &self.1;
        self.0.any(|x| p(f(x)))
    }
    fn find_map<B, P: FnMut(Item) -> Option<B>>(&mut self, mut p: P) -> Option<B> {
        let f = &self.1;
        self.0.find_map(|x| p(f(x)))
    }
}
impl<I: DoubleEndedIterator, F: Fn(I::Item) -> Item> DoubleEndedIterator for Thru<I, F> {
    fn next_back(&mut self) -> Option<Item> {
        self.0.next_back().map(&self.1)
    }
    fn nth_back(&mut self, n: usize) -> Option<Item> {
        self.0.nth_back(n).map(&self.1)
    }
    fn rfold<B, G: FnMut(B, Item) -> B>(self, b: B, mut g: G) -> B {
        let f = self.1;
        self.0.rfold(b, |b, x| g(b, f(x)))
    }
}
impl<I: ExactSizeIterator, F: Fn(I::Item) -> Item> ExactSizeIterator for Thru<I, F> {
    fn len(&self) -> usize {
        self.0.len()
    }
}

/// drive one iterator against the slice of entries still to come
fn drive<I>(ctx: &mut Ctx, mut it: I, items: &[Item], dup: Option<fn(&I) -> I>, what: &str)
where
    I: DoubleEndedIterator<Item = Item> + ExactSizeIterator,
{
    let (mut a, mut b) = (0usize, items.len());
    let style = ctx.rng.below(9);
    ctx.add("iterators_driven");
    ctx.note(style * 1000 + items.len() as u64);
    let stop = match ctx.rng.below(4) {
        0 => ctx.rng.below(items.len() as u64 + 1) as usize,
        _ => 0,
    };
    let mut after = 0;
    let (mut fwd, mut back, mut burst, mut dir) = (0u64, 0u64, 0u64, false);
    let mut steps = 0u64;
    loop {
        let rem = b - a;
        let (h, l) = (it.size_hint(), it.len());
        check!(
            h == (rem, Some(rem)) && l == rem,
            "{what}: size_hint {h:?}, len {l} with {rem} of {} entries still to come (after {fwd} from the front, {back} from the back)",
            items.len()
        );
        if rem == 0 {
            after += 1;
            if after > 4 {
                break;
            }
        }
        if rem > 0 && rem <= stop {
            break;
        }
        steps += 1;
        if let Some(d) = dup {
            if ctx.rng.chance(1, 60 + items.len() as u64 / 4) {
                let c = d(&it);
                ctx.add("iterator_clones");
                // drive either the clone or the original on the side, continue with the other
                if ctx.rng.chance(1, 2) {
                    finish(ctx, c, &items[a..b], what);
                } else {
                    finish(ctx, std::mem::replace(&mut it, c), &items[a..b], what);
                }
                continue;
            }
        }
        let front = match style {
            0 => true,
            1 => false,
            2 => steps % 2 == 0,
            3 => ctx.rng.chance(1, 2),
            4 => ctx.rng.chance(9, 10),
            5 => ctx.rng.chance(1, 10),
            6 => {
                if burst == 0 {
                    burst = ctx.rng.range(1, 3 * ctx.n as u64);
                    dir = !dir;
                }
                burst -= 1;
                dir
            }
            7 => (fwd as usize) < items.len() / 2,
            _ => (back as usize) >= items.len() / 2,
        };
        // skipping forms
        if ctx.rng.chance(1, 25) {
            let lim = if ctx.rng.chance(1, 4) { rem as u64 + 3 } else { 5 };
            let k = ctx.rng.below(lim) as usize;
            ctx.add("nth_calls");
            if front {
                ev("nth", k as u64, rem as u64);
                let want = if k < rem { Some(items[a + k]) } else { None };
                let got = it.nth(k);
                check!(got == want, "{what}: nth({k}) gave {got:?}, expected {want:?} ({rem} entries to come)");
                a = (a + k + 1).min(b);
            } else {
                ev("nth_back", k as u64, rem as u64);
                let want = if k < rem { Some(items[b - 1 - k]) } else { None };
                let got = it.nth_back(k);
                check!(got == want, "{what}: nth_back({k}) gave {got:?}, expected {want:?} ({rem} entries to come)");
                b = b.saturating_sub(k + 1).max(a);
            }
            continue;
        }
        if front {
            fwd += 1;
            let got = it.next();
            let want = (a < b).then(|| items[a]);
            check!(
                got == want,
                "{what}: call {steps}: next() gave {got:?}, expected {want:?} ({rem} entries to come, {back} taken from the back)"
            );
            if a < b {
                a += 1;
            }
        } else {
            back += 1;
            let got = it.next_back();
            let want = (a < b).then(|| items[b - 1]);
            check!(
                got == want,
                "{what}: call {steps}: next_back() gave {got:?}, expected {want:?} ({rem} entries to come, {fwd} taken from the front)"
            );
            if a < b {
                b -= 1;
            }
        }
        progress();
    }
    ctx.st.add("items_checked", (items.len() - (b - a)) as u64);
    if a < b {
        finish(ctx, it, &items[a..b], what);
    }
}
use crate::core::progress;

/// consume the rest by one of the whole-iterator calls
fn finish<I>(ctx: &mut Ctx, mut it: I, rest: &[Item], what: &str)
where
    I: DoubleEndedIterator<Item = Item> + ExactSizeIterator,
{
    let n = rest.len();
    let how = ctx.rng.below(14);
    ev("finish", how, n as u64);
    ctx.add("whole_iterator_calls");
    match how {
        0 => {
            let v: Vec<Item> = it.collect();
            check!(v == rest, "{what}: collecting {n} entries gives {} entries or other ones", v.len());
        }
        1 => {
            let v: Vec<Item> = it.rev().collect();
            check!(v.iter().rev().eq(rest.iter()), "{what}: collecting {n} entries backwards gives {}", v.len());
        }
        2 => {
            let c = it.count();
            check!(c == n, "{what}: count() is {c}, expected {n}");
        }
        3 => {
            let l = it.last();
            check!(l == rest.last().copied(), "{what}: last() is {l:?}, expected {:?}", rest.last());
        }
        4 => {
            let mut v = Vec::new();
            it.for_each(|x| v.push(x));
            check!(v == rest, "{what}: for_each visits {} entries, expected {n}, or other ones", v.len());
        }
        5 => {
            let v = it.rfold(Vec::new(), |mut v, x| {
                v.push(x);
                v
            });
            check!(v.iter().rev().eq(rest.iter()), "{what}: rfold visits {} entries, expected {n}, or other ones", v.len());
        }
        6 => {
            let k = ctx.rng.range(1, 5) as usize;
            let v: Vec<Item> = it.step_by(k).collect();
            check!(v.iter().eq(rest.iter().step_by(k)), "{what}: step_by({k}) over {n} entries differs");
        }
        7 => {
            let k = ctx.rng.below(n as u64 + 2) as usize;
            let v: Vec<Item> = it.by_ref().take(k).collect();
            check!(v == rest[..k.min(n)], "{what}: the first {k} of {n} entries differ");
            let w: Vec<Item> = it.rev().collect();
            check!(w.iter().rev().eq(rest[k.min(n)..].iter()), "{what}: the entries after the first {k} of {n} differ");
        }
        8 => {
            let mut v = Vec::new();
            let mut w = Vec::new();
            while let Some(x) = it.next() {
                v.push(x);
                if let Some(y) = it.next_back() {
                    w.push(y);
                }
            }
            v.extend(w.into_iter().rev());
            check!(v == rest, "{what}: meeting in the middle yields {} entries, expected {n}, or other ones", v.len());
        }
        9 => {
            // find from both ends
            if n > 0 {
                let i = ctx.rng.idx(n);
                let x = rest[i];
                let p = it.by_ref().position(|y| y == x);
                check!(p == Some(i), "{what}: position of entry {i} is {p:?}");
                let l = it.len();
                check!(l == n - i - 1, "{what}: len after position is {l}, expected {}", n - i - 1);
                let r = it.rfind(|y| y.0 <= x.0);
                check!(r.is_none(), "{what}: entry {r:?} comes again");
            }
        }
        10 => {
            // stop in the middle, then take the rest from both ends
            let k = ctx.rng.below(n as u64 + 1) as usize;
            let mut left = k;
            let r = it.all(|_| {
                left = left.wrapping_sub(1);
                left != usize::MAX
            });
            let seen = (k + 1).min(n);
            check!(r == (k >= n), "{what}: all() over {n} entries that fails after {k} is {r}");
            check!(it.len() == n - seen, "{what}: len after all() stopped at entry {k} of {n} is {}", it.len());
            let l = it.next_back();
            check!(l == rest[seen..].last().copied(), "{what}: next_back() after all() stopped at entry {k} of {n} gives {l:?}");
            let v: Vec<Item> = it.collect();
            check!(v == rest[seen..n.saturating_sub(1).max(seen)], "{what}: the rest after all() stopped at entry {k} of {n} differs");
        }
        11 => {
            let x = if n > 0 { rest[ctx.rng.idx(n)] } else { (7, 7) };
            let f = it.find_map(|y| (y >= x).then_some(y));
            check!(f == (n > 0).then_some(x), "{what}: find_map gives {f:?}, expected {x:?}");
            let k = rest.iter().position(|y| *y == x).map_or(n, |i| i + 1);
            let any = it.any(|y| y <= x);
            check!(!any && it.len() == 0, "{what}: an entry came again after entry {k} of {n}");
        }
        12 => {
            // several skips in a row
            let (mut a, mut b) = (0, n);
            while a < b {
                let k = ctx.rng.below((b - a) as u64 / 2 + 2) as usize;
                let f = ctx.rng.chance(1, 2);
                let got = if f { it.nth(k) } else { it.nth_back(k) };
                let want = if k >= b - a {
                    None
                } else if f {
                    Some(rest[a + k])
                } else {
                    Some(rest[b - 1 - k])
                };
                check!(got == want, "{what}: skipping {k} of the {} entries to come gave {got:?}, expected {want:?}", b - a);
                if f {
                    a = (a + k + 1).min(b)
                } else {
                    b = b.saturating_sub(k + 1).max(a)
                }
                let (h, l) = (it.size_hint(), it.len());
                check!(l == b - a && h == (l, Some(l)), "{what}: len {l}, size_hint {h:?} with {} entries to come after a skip", b - a);
            }
            check!(it.next().is_none() && it.next_back().is_none(), "{what}: entries after the end");
        }
        _ => {
            let k = ctx.rng.below(n as u64 + 1) as usize;
            let v: Vec<Item> = it.skip(k).rev().collect();
            check!(v.iter().rev().eq(rest[k..].iter()), "{what}: skip({k}).rev() over {n} entries differs");
        }
    }
    ctx.st.add("items_checked", n as u64);
}

/// take a few entries from both ends, never all the same way; the place where the rest lies in `want`
fn nibble<I: DoubleEndedIterator + ExactSizeIterator>(ctx: &mut Ctx, it: &mut I, n: usize) -> (usize, usize) {
    let some = |ctx: &mut Ctx, lim: usize| match ctx.rng.below(4) {
        0 => 0,
        1 => ctx.rng.below(lim as u64 + 1) as usize,
        _ => ctx.rng.below(lim.min(4) as u64 + 1) as usize,
    };
    let a = some(ctx, n);
    let b = some(ctx, n - a);
    for _ in 0..a {
        it.next();
    }
    for _ in 0..b {
        it.next_back();
    }
    (a, n - b)
}
/// whole-iterator calls that look at the items themselves, on an iterator that both ends have been
/// taken from: nothing stands between the library and the call
fn raw<I, P>(ctx: &mut Ctx, mut it: I, want: &[Item], p: P, what: &str)
where
    I: DoubleEndedIterator + ExactSizeIterator,
    P: Fn(&I::Item) -> Item,
{
    let (a, b) = nibble(ctx, &mut it, want.len());
    let rest = &want[a..b];
    let n = rest.len();
    // present, or gone already
    let x = if !want.is_empty() { want[ctx.rng.idx(want.len())] } else { (3, 3) };
    let at = rest.iter().position(|y| *y == x);
    let how = ctx.rng.below(9);
    ev("raw", how, n as u64);
    ctx.add("calls_on_the_items");
    match how {
        0 => {
            let f = it.find(|y| p(y) == x).map(|y| p(&y));
            check!(f.is_some() == at.is_some() && f.is_none_or(|f| f == x), "{what}: find of {x:?} among {n} entries gives {f:?}");
            let l = it.len();
            check!(l == at.map_or(0, |i| n - i - 1), "{what}: len {l} after find of {x:?}, entry {at:?} of {n}");
            let v: Vec<Item> = it.map(|y| p(&y)).collect();
            check!(v == rest[n - v.len()..] && v.len() == l, "{what}: the entries after find of {x:?} differ");
        }
        1 => {
            let f = it.rfind(|y| p(y) == x).map(|y| p(&y));
            check!(f.is_some() == at.is_some() && f.is_none_or(|f| f == x), "{what}: rfind of {x:?} among {n} entries gives {f:?}");
            let l = it.len();
            check!(l == at.unwrap_or(0), "{what}: len {l} after rfind of {x:?}, entry {at:?} of {n}");
            let v: Vec<Item> = it.map(|y| p(&y)).collect();
            check!(v == rest[..l], "{what}: the entries before rfind of {x:?} differ");
        }
        2 => {
            let m = it.min_by(|x, y| p(x).0.cmp(&p(y).0)).map(|y| p(&y));
            check!(m == rest.first().copied(), "{what}: min_by over {n} entries gives {m:?}, expected {:?}", rest.first());
        }
        3 => {
            let m = it.max_by(|x, y| p(x).0.cmp(&p(y).0)).map(|y| p(&y));
            check!(m == rest.last().copied(), "{what}: max_by over {n} entries gives {m:?}, expected {:?}", rest.last());
        }
        4 => {
            // the other way round: the smallest key is the largest now
            let m = it.max_by_key(|x| u64::MAX - p(x).0).map(|y| p(&y));
            check!(m == rest.first().copied(), "{what}: max_by_key over {n} entries gives {m:?}, expected {:?}", rest.first());
        }
        5 => {
            let m = it.min_by_key(|x| u64::MAX - p(x).0).map(|y| p(&y));
            check!(m == rest.last().copied(), "{what}: min_by_key over {n} entries gives {m:?}, expected {:?}", rest.last());
        }
        6 => {
            let mut seen = 0;
            let m = it
                .reduce(|x, y| {
                    seen += 1;
                    if p(&x).0 < p(&y).0 {
                        y
                    } else {
                        x
                    }
                })
                .map(|y| p(&y));
            check!(
                m == rest.last().copied() && seen == n.saturating_sub(1),
                "{what}: reduce over {n} entries gives {m:?} in {seen} steps, expected {:?}",
                rest.last()
            );
        }
        7 => {
            let r = it.rposition(|y| p(&y) == x);
            check!(r == at, "{what}: rposition of {x:?} among {n} entries is {r:?}, expected {at:?}");
            let v: Vec<Item> = it.map(|y| p(&y)).collect();
            check!(v == rest[..at.unwrap_or(0)], "{what}: the entries before rposition of {x:?} differ");
        }
        _ => {
            let (u, v): (Vec<I::Item>, Vec<I::Item>) = it.partition(|y| p(y).0 <= x.0);
            let k = rest.iter().filter(|y| y.0 <= x.0).count();
            check!(
                u.iter().map(&p).eq(rest[..k].iter().copied()) && v.iter().map(&p).eq(rest[k..].iter().copied()),
                "{what}: partition at {x:?} gives {} and {} of {n} entries, expected {k} first, or other ones",
                u.len(),
                v.len()
            );
        }
    }
}
/// the calls that use the order of the items themselves; `it` and `other` are alike
fn ordered<I>(ctx: &mut Ctx, mut it: I, mut other: I, want: &[Item], p: impl Fn(&I::Item) -> Item, what: &str)
where
    I: DoubleEndedIterator + ExactSizeIterator,
    I::Item: Ord,
{
    let (a, b) = nibble(ctx, &mut it, want.len());
    let rest = &want[a..b];
    ctx.add("calls_on_the_items");
    match ctx.rng.below(4) {
        0 => {
            let m = it.min().map(|y| p(&y));
            check!(m == rest.first().copied(), "{what}: min() of the rest gives {m:?}, expected {:?}", rest.first());
        }
        1 => {
            let m = it.max().map(|y| p(&y));
            check!(m == rest.last().copied(), "{what}: max() of the rest gives {m:?}, expected {:?}", rest.last());
        }
        2 => check!(it.is_sorted(), "{what}: is_sorted() says no"),
        _ => {
            let (c, d) = nibble(ctx, &mut other, want.len());
            let r = &want[c..d];
            match ctx.rng.below(3) {
                0 => {
                    let g = it.cmp(other);
                    check!(g == rest.cmp(r), "{what}: cmp() of entries {a}..{b} and {c}..{d} gives {g:?}");
                }
                1 => {
                    let g = it.eq(other);
                    check!(g == (rest == r), "{what}: eq() of entries {a}..{b} and {c}..{d} gives {g}");
                }
                _ => {
                    let g = it.lt(other);
                    check!(g == (rest < r), "{what}: lt() of entries {a}..{b} and {c}..{d} gives {g}");
                }
            }
        }
    }
}

fn items(m: &Model<Pay>) -> Vec<Item> {
    m.e.iter().map(|x| (x.0, x.1 .0)).collect()
}

fn by_ref<K: KeyT, V: ValT>(x: (&K, &V)) -> Item {
    (x.0.o(), x.1.get())
}

fn history<D, K, V, A>(ctx: &mut Ctx, mut session: impl FnMut(&mut Ctx, &D, &[Item])) -> Hist<D, K, V, A>
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    let target = ctx.size();
    let mut h: Hist<D, K, V, A> = if ctx.rng.chance(1, 4) {
        // bulk built
        let p = pattern(&mut ctx.rng, target, K::MAXO);
        let e: Vec<(u64, Pay)> = p.iter().map(|o| (*o, (V::norm(o * 3), 0))).collect();
        let d = D::bulk(e.iter().map(|x| (K::mk(x.0), V::mk(x.1 .0))).collect());
        ctx.add("bulk_built");
        Hist::with(ctx, d, Model { e }, target)
    } else {
        Hist::new(ctx, target)
    };
    h.foreign = true;
    let rounds = if ctx.miri() { 3 } else { 14 };
    for r in 0..rounds {
        if ctx.late() {
            break;
        }
        if r == 0 && ctx.rng.chance(1, 2) {
            // the initial, possibly empty or bulk-built, shape
        } else {
            let x = match ctx.rng.below(3) {
                0 => ctx.rng.below(4) as usize,
                1 => ctx.rng.below(2 * ctx.n as u64) as usize,
                _ => ctx.rng.below(target as u64 + 1) as usize,
            };
            if ctx.rng.chance(2, 3) {
                h.grow(ctx, x);
            } else {
                for _ in 0..x {
                    let (_, r) = h.step(ctx);
                    other(r);
                }
            }
        }
        let want = items(&h.m);
        let k = if want.len() > 3000 { 1 } else { 3 };
        for _ in 0..k {
            session(ctx, &h.d, &want);
        }
    }
    h.describe(ctx, "iterators over", coll_name(D::TREE));
    h
}

fn map_body<K: KeyT, V: ValT>(ctx: &mut Ctx) {
    history::<Map<K, V>, K, V, ()>(ctx, |ctx, d, w| {
        drive(ctx, Thru(d.iter(), by_ref), w, None, "BPlusTreeMap::iter");
        raw(ctx, d.iter(), w, |x| by_ref(*x), "BPlusTreeMap::iter");
    });
}
fn tree_body<K: KeyT, V: ValT + Clone, A: AggT<K, V>>(ctx: &mut Ctx) {
    let h = history::<Tree<K, V, A>, K, V, A>(ctx, |ctx, d, w| {
        if ctx.rng.chance(1, 2) {
            let it = Thru(d.iter(), by_ref as fn((&K, &V)) -> Item);
            drive(ctx, it, w, Some(|i| i.clone()), "BPlusTree::iter");
            raw(ctx, d.iter(), w, |x| by_ref(*x), "BPlusTree::iter");
        } else {
            raw(ctx, d.clone().into_iter(), w, |x| (x.0.o(), x.1.get()), "BPlusTree::into_iter (of a clone)");
            let it = Thru(d.clone().into_iter(), |(k, v): (K, V)| (k.o(), v.get()));
            drive(ctx, it, w, None, "BPlusTree::into_iter (of a clone)");
        }
    });
    let want = items(&h.m);
    drive(ctx, Thru(h.d.into_iter(), |(k, v): (K, V)| (k.o(), v.get())), &want, None, "BPlusTree::into_iter");
}
fn set_body<K: KeyT>(ctx: &mut Ctx) {
    let h = history::<Set<K>, K, (), ()>(ctx, |ctx, d, w| {
        let it = Thru(d.iter(), (|k| (k.o(), 0)) as fn(&K) -> Item);
        drive(ctx, it, w, Some(|i| i.clone()), "BPlusTreeSet::iter");
        raw(ctx, d.iter(), w, |k| (k.o(), 0), "BPlusTreeSet::iter");
        ordered(ctx, d.iter(), d.iter(), w, |k| (k.o(), 0), "BPlusTreeSet::iter");
    });
    let want = items(&h.m);
    if ctx.rng.chance(1, 4) {
        return raw(ctx, h.d.into_iter(), &want, |k: &K| (k.o(), 0), "BPlusTreeSet::into_iter");
    }
    drive(ctx, Thru(h.d.into_iter(), |k: K| (k.o(), 0)), &want, None, "BPlusTreeSet::into_iter");
}

fn pairs<D>(ctx: &mut Ctx, run: impl Fn(&mut Ctx, &D, &[Item]))
where
    D: Dict<u64, u64, ()>,
{
    history::<D, u64, u64, ()>(ctx, run);
}

fn giant_tree(ctx: &mut Ctx) {
    let h = Hist::<Tree<u64, u64>, u64, u64, ()>::giant_session(ctx, true, "sweeps", |ctx, h, _| {
        let w = items(&h.m);
        let it = Thru(h.d.iter(), by_ref as fn((&u64, &u64)) -> Item);
        drive(ctx, it, &w, Some(|i| i.clone()), "BPlusTree::iter");
        finish(ctx, Thru(h.d.iter(), by_ref), &w, "BPlusTree::iter");
    });
    let w = items(&h.m);
    drive(ctx, Thru(h.d.into_iter(), |x| x), &w, None, "BPlusTree::into_iter");
}
fn giant_set(ctx: &mut Ctx) {
    let h = Hist::<Set<u64>, u64, (), ()>::giant_session(ctx, true, "sweeps", |ctx, h, _| {
        let w = items(&h.m);
        drive(ctx, Thru(h.d.iter(), |k: &u64| (*k, 0)), &w, None, "BPlusTreeSet::iter");
    });
    let w = items(&h.m);
    drive(ctx, Thru(h.d.into_iter(), |k: u64| (k, 0)), &w, None, "BPlusTreeSet::into_iter");
}

pub fn episode(ctx: &mut Ctx) {
    if ctx.giant() {
        return one_of!(ctx, 3 => giant_tree(ctx), 1 => giant_set(ctx));
    }
    one_of!(ctx,
        4 => map_body::<u64, u64>(ctx),
        2 => map_body::<Tk, Tv>(ctx),
        1 => map_body::<String, ()>(ctx),
        5 => tree_body::<u64, u64, ()>(ctx),
        3 => tree_body::<Tk, Tv, Fold>(ctx),
        1 => tree_body::<String, String, ()>(ctx),
        4 => set_body::<u64>(ctx),
        2 => set_body::<Tk>(ctx),
        1 => set_body::<()>(ctx),
        1 => pairs::<Map<u64, u64>>(ctx, |ctx, d, w| ordered(ctx, d.iter(), d.iter(), w, |x| by_ref(*x), "BPlusTreeMap::iter")),
        1 => pairs::<Tree<u64, u64>>(ctx, |ctx, d, w| {
            ordered(ctx, d.iter(), d.iter(), w, |x| by_ref(*x), "BPlusTree::iter");
            if w.len() < 3000 {
                ordered(ctx, d.clone().into_iter(), d.clone().into_iter(), w, |x| *x, "BPlusTree::into_iter (of a clone)");
            }
        }),
    );
}
