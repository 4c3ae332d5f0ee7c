//! C15: memory held is bounded by the current contents.
//! A counting allocator is read after every operation of long churning histories and compared with
//! a bound computed from the current number of entries and the largest past one.
use super::*;
use crate::core::live_bytes;
use crate::dict::{Map, Set, Tree};
use crate::one_of;
use crate::types::*;
use sweep_bptree::augment::SearchAugmentation;

/// aggregate that owns heap memory (not tracked by the ledger, which would allocate itself)
#[derive(Clone, Debug, Default)]
pub struct HeapN(Vec<u64>);
impl HeapN {
    fn n(&self) -> u64 {
        self.0.first().copied().unwrap_or(0)
    }
}
impl<K: KeyT, V> Augmentation<K, V> for HeapN {
    fn from_inner(_: &[K], a: &[Self]) -> Self {
        HeapN(vec![a.iter().map(|x| x.n()).sum(), 1])
    }
    fn from_leaf(k: &[K], _: &[V]) -> Self {
        HeapN(vec![k.len() as u64, 0])
    }
}
impl<K: KeyT, V> SearchAugmentation<K, V> for HeapN {
    type Query = u64;
    fn locate_in_leaf(q: u64, k: &[K], _: &[V]) -> Option<usize> {
        ((q as usize) < k.len()).then_some(q as usize)
    }
    fn locate_in_inner(mut q: u64, _: &[K], a: &[Self]) -> Option<(usize, u64)> {
        for (i, x) in a.iter().enumerate() {
            if q < x.n() {
                return Some((i, q));
            }
            q -= x.n();
        }
        None
    }
}

/// the statistics allocate when a counter appears, so they all appear before measuring
const COUNTERS: [&str; 11] = [
    "histories",
    "grow_shrink_cycles",
    "churns",
    "queues",
    "spots",
    "read_phases",
    "clones",
    "clears",
    "bulk_loads",
    "operations_checked",
    "phases",
];

struct Bound {
    leaf: i64,
    inner: i64,
    k: i64,
    v: i64,
    a: i64,
    n: i64,
}
impl Bound {
    fn limit(&self, len: i64, peak: i64) -> i64 {
        // nodes at least a quarter full, but for the last one or two
        let minl = (self.n / 4).max(2);
        let leaves = len / minl + 2;
        let inner = if len <= self.n / 2 { 1 } else { leaves / (minl - 1) + 1 };
        let nodes = leaves * self.leaf + inner * self.inner;
        let heap = (len + leaves) * self.k + len * self.v + (leaves + inner + 2) * self.a;
        (nodes + heap) * 3 / 2 + 64 * (peak / minl + 2) + 4096
    }
}

struct Run<D> {
    d: D,
    base: i64,
    b: Bound,
    peak: i64,
    dom: u64,
    maxlen: i64,
    lo: u64,
    ops: u64,
    list: Vec<u32>,
    pos: Vec<u32>,
    worst: i64,
}

fn heap_of<T>(f: impl Fn() -> T) -> i64 {
    let b = live_bytes();
    let t = f();
    let r = live_bytes() - b;
    drop(t);
    r.max(0)
}

impl<D> Run<D> {
    fn len(&self) -> i64 {
        self.list.len() as i64
    }
    fn present(&self, o: u64) -> bool {
        self.pos[o as usize] != u32::MAX
    }
    fn put(&mut self, o: u64) {
        if !self.present(o) {
            self.pos[o as usize] = self.list.len() as u32;
            self.list.push(o as u32);
            self.peak = self.peak.max(self.len());
        }
    }
    fn cut(&mut self, o: u64) {
        let p = std::mem::replace(&mut self.pos[o as usize], u32::MAX);
        if p != u32::MAX {
            self.list.swap_remove(p as usize);
            if let Some(x) = self.list.get(p as usize) {
                self.pos[*x as usize] = p;
            }
        }
    }
    fn ok(&mut self, len: usize, what: &str) {
        self.ops += 1;
        crate::core::progress();
        if len as i64 != self.len() {
            foreign(format!("{len} entries after {what}, should be {}", self.len()));
        }
        let lim = self.b.limit(self.len(), self.peak);
        let mut held = live_bytes() - self.base;
        if held > lim {
            // the watchdog thread allocates for a moment now and then
            for _ in 0..50 {
                std::thread::sleep(std::time::Duration::from_millis(2));
                held = held.min(live_bytes() - self.base);
            }
            check!(
                held <= lim,
                "{held} heap bytes are held for {} entries after {what} and {} operations (at most {} entries so far), the bound is {lim}",
                self.len(),
                self.ops,
                self.peak
            );
        }
        self.worst = self.worst.max(held * 100 / lim);
    }
}

#[derive(Clone, Copy)]
struct Caps<D> {
    clone: Option<fn(&D) -> D>,
    take: Option<fn(&mut D, usize) -> Option<u64>>,
    scan: fn(&D, &mut Rng),
}

fn body<D, K, V, A>(ctx: &mut Ctx, caps: Caps<D>)
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    let n = ctx.n as u64;
    let maxlen = match ctx.rng.below(6) {
        _ if ctx.miri() => ctx.rng.range(4 * n, 8 * n),
        0 => ctx.rng.range(1, 3 * n),
        1 | 2 => ctx.rng.range(2 * n, 12 * n),
        3 | 4 => ctx.rng.range(12 * n, 60 * n),
        _ => ctx.rng.range(60 * n, 300 * n),
    }
    .min(K::MAXO * 2 / 3)
    .max(1);
    let dom = (maxlen * ctx.rng.pick(&[2, 3, 8])).min(K::MAXO);
    let budget = if ctx.miri() {
        600
    } else if ctx.thorough {
        ctx.rng.pick(&[100_000, 400_000, 3_000_000])
    } else {
        ctx.rng.pick(&[60_000, 200_000, 600_000])
    };
    let word = std::mem::size_of::<usize>() as i64;
    let (sk, sv, sa) = (std::mem::size_of::<K>() as i64, std::mem::size_of::<V>() as i64, std::mem::size_of::<A>() as i64);
    let al = (std::mem::align_of::<K>().max(std::mem::align_of::<V>()).max(std::mem::align_of::<A>())) as i64;
    let nn = ctx.n as i64;
    let agg: fn() -> A = || A::from_leaf(&[K::mk(1)], &[V::mk(1)]);
    let b = Bound {
        leaf: nn * (sk + sv) + 8 * word + 4 * al,
        inner: nn * sk + (nn + 1) * (sa + 2 * word) + 8 * word + 4 * al,
        k: heap_of(|| K::mk(dom - 1)).max(heap_of(|| K::mk(0))),
        v: heap_of(|| V::mk(V::norm(u64::MAX))).max(heap_of(|| V::mk(0))),
        // the aggregate of one entry, without the entry
        a: {
            let b = live_bytes();
            let a = agg();
            let r = live_bytes() - b;
            drop(a);
            r.max(0)
        },
        n: nn,
    };
    let list = Vec::with_capacity(dom as usize + 1);
    let pos = vec![u32::MAX; dom as usize];
    for c in COUNTERS {
        ctx.st.add(c, 0);
    }
    let base = live_bytes();
    let mut r: Run<D> =
        Run { base, b, peak: 0, dom, maxlen: maxlen as i64, lo: 0, ops: 0, list, pos, worst: 0, d: D::create() };
    r.ok(0, "creating it empty");
    ctx.add("histories");
    let mut phases = 0u64;
    let mut vc = 1u64;
    while r.ops < budget && !ctx.late() {
        let ph = ctx.rng.below(12);
        phases += 1;
        let ops0 = r.ops;
        let span = ctx.rng.range(10, 20 * maxlen + 100).min(budget);
        match ph {
            // grow and shrink cycles between two sizes, in different orders
            0..=3 => {
                let hi = ctx.rng.range(1, maxlen) as i64;
                let lo = if ph < 2 { 0 } else { ctx.rng.range(0, hi as u64) as i64 };
                let cycles = ctx.rng.pick(&[1, 4, 30, 120]);
                let (up, down) = (ctx.rng.below(3), ctx.rng.below(4));
                for _ in 0..cycles {
                    let mut tries = 0;
                    let mut at = ctx.rng.below(dom);
                    while r.len() < hi && tries < 30 * hi {
                        tries += 1;
                        let o = match up {
                            0 => ctx.rng.below(dom),
                            1 => {
                                at = (at + 1) % dom;
                                at
                            }
                            _ => {
                                at = (at + dom - 1) % dom;
                                at
                            }
                        };
                        step_ins::<D, K, V, A>(&mut r, o, &mut vc);
                    }
                    while r.len() > lo {
                        let o = match down {
                            0 | 3 => r.list[ctx.rng.idx(r.list.len())] as u64,
                            1 => r.d.iter().next().map(|e| e.0.o()).unwrap_or(0),
                            _ => r.d.iter().next_back().map(|e| e.0.o()).unwrap_or(0),
                        };
                        step_del::<D, K, V, A>(&mut r, o, if down == 3 { caps.take } else { None }, &mut ctx.rng);
                        if ctx.late() {
                            break;
                        }
                    }
                    if r.ops > budget || ctx.late() {
                        break;
                    }
                }
                ctx.st.add("grow_shrink_cycles", cycles);
            }
            // steady churn at about the present size
            4 | 5 => {
                let want = ctx.rng.range(1, maxlen) as i64;
                while r.ops - ops0 < span {
                    let o = ctx.rng.below(dom);
                    if r.len() < want && ctx.rng.chance(4, 5) || r.list.is_empty() || ctx.rng.chance(1, 3) {
                        step_ins::<D, K, V, A>(&mut r, o, &mut vc);
                    } else {
                        let o = r.list[ctx.rng.idx(r.list.len())] as u64;
                        step_del::<D, K, V, A>(&mut r, o, None, &mut ctx.rng);
                    }
                    if r.ops % 1024 == 0 && ctx.late() {
                        break;
                    }
                }
                ctx.add("churns");
            }
            // a queue: new keys at one end, old ones leave at the other
            6 | 7 => {
                let want = ctx.rng.range(1, maxlen) as i64;
                while r.ops - ops0 < span {
                    if r.len() < want {
                        r.lo = if ph == 6 { (r.lo + 1) % dom } else { (r.lo + dom - 1) % dom };
                        let o = r.lo;
                        step_ins::<D, K, V, A>(&mut r, o, &mut vc);
                    }
                    if r.len() >= want {
                        let o = if ph == 6 {
                            r.d.iter().next().map(|e| e.0.o())
                        } else {
                            r.d.iter().next_back().map(|e| e.0.o())
                        };
                        step_del::<D, K, V, A>(&mut r, o.unwrap_or(0), None, &mut ctx.rng);
                    }
                    if r.ops % 1024 == 0 && ctx.late() {
                        break;
                    }
                }
                ctx.add("queues");
            }
            // the same few keys in and out
            8 => {
                let w = ctx.rng.range(1, 3 * n);
                let at = ctx.rng.below(dom);
                while r.ops - ops0 < span {
                    let o = (at + ctx.rng.below(w)) % dom;
                    if r.present(o) && ctx.rng.chance(2, 3) {
                        step_del::<D, K, V, A>(&mut r, o, None, &mut ctx.rng);
                    } else if r.len() < r.maxlen * 2 {
                        step_ins::<D, K, V, A>(&mut r, o, &mut vc);
                    } else {
                        break;
                    }
                    if r.ops % 1024 == 0 && ctx.late() {
                        break;
                    }
                }
                ctx.add("spots");
            }
            // reads hold nothing
            9 => {
                for _ in 0..ctx.rng.below(30) {
                    (caps.scan)(&r.d, &mut ctx.rng);
                    let l = r.d.len();
                    r.ok(l, "reading");
                }
                for _ in 0..ctx.rng.below(200) {
                    let o = ctx.rng.below(dom);
                    let hit = K::with_q(o, |q| r.d.get_mut(q).is_some());
                    if hit != r.present(o) {
                        foreign("wrong lookup".into());
                    }
                    let l = r.d.len();
                    r.ok(l, "get_mut");
                }
                ctx.add("read_phases");
            }
            10 => {
                if let Some(c) = caps.clone {
                    let held = live_bytes() - r.base;
                    let c = c(&r.d);
                    let d = std::mem::replace(&mut r.d, c);
                    // both alive: the copy alone is within the bound
                    let both = live_bytes() - r.base;
                    let lim = r.b.limit(r.len(), r.peak);
                    check!(
                        both - held <= lim + 4096,
                        "a clone of {} entries holds {} heap bytes, the bound is {lim}",
                        r.len(),
                        both - held
                    );
                    drop(d);
                    let l = r.d.len();
                    r.ok(l, "replacing it by its clone");
                    ctx.add("clones");
                }
            }
            _ => {
                if ctx.rng.chance(1, 2) {
                    for _ in 0..ctx.rng.pick(&[1u64, 3, 20]) {
                        if r.d.clear() {
                            while let Some(o) = r.list.last().copied() {
                                r.cut(o as u64);
                            }
                            let l = r.d.len();
                            r.ok(l, "clear");
                            ctx.add("clears");
                            for _ in 0..ctx.rng.below(3 * n) {
                                let o = ctx.rng.below(dom);
                                step_ins::<D, K, V, A>(&mut r, o, &mut vc);
                            }
                        }
                    }
                } else {
                    // built anew from as many items
                    let c = ctx.rng.range(0, maxlen);
                    let at = ctx.rng.below(dom - c.min(dom - 1));
                    while let Some(o) = r.list.last().copied() {
                        r.cut(o as u64);
                    }
                    r.d = D::create();
                    {
                        let items: Vec<(K, V)> = (at..(at + c).min(dom)).map(|o| (K::mk(o), V::mk(o))).collect();
                        r.d = D::bulk(items);
                    }
                    for o in at..(at + c).min(dom) {
                        r.put(o);
                    }
                    let l = r.d.len();
                    r.ok(l, "building it anew");
                    ctx.add("bulk_loads");
                }
            }
        }
    }
    // almost everything removed: next to nothing is held
    while let Some(o) = r.list.last().copied() {
        step_del::<D, K, V, A>(&mut r, o as u64, None, &mut ctx.rng);
    }
    ctx.st.add("operations_checked", r.ops);
    ctx.st.max("held_percent_of_bound", r.worst.max(0) as u64);
    ctx.st.max("peak_entries", r.peak as u64);
    ctx.st.add("phases", phases);
    ctx.note(mix(r.ops, r.peak as u64));
    ctx.nontrivial = r.peak as u64 > n && r.ops > 4 * r.peak as u64;
    {
        use std::fmt::Write;
        let _ = write!(
            ctx.desc,
            "{} operations in {phases} phases on a collection of <{}, {}>, peak {} entries, at most {}% of the bound held",
            r.ops,
            K::NAME,
            V::NAME,
            r.peak,
            r.worst
        );
    }
    // what stays behind when the collection is gone is C10's
    drop(r);
}

fn step_ins<D, K, V, A>(r: &mut Run<D>, o: u64, vc: &mut u64)
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    *vc += 1;
    ev("insert", o, *vc);
    let got = r.d.insert(K::mk(o), V::mk(V::norm(mix(*vc, 5))));
    if got.is_some() != r.present(o) {
        foreign(format!("insert of #{o} found a previous value: {}", got.is_some()));
    }
    drop(got);
    r.put(o);
    let l = r.d.len();
    r.ok(l, "insert");
}
fn step_del<D, K, V, A>(r: &mut Run<D>, o: u64, take: Option<fn(&mut D, usize) -> Option<u64>>, rng: &mut Rng)
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    if let Some(t) = take {
        let i = rng.idx(r.list.len());
        ev("take", i as u64, 0);
        let Some(o) = t(&mut r.d, i) else { foreign("nothing at a position below the length".into()) };
        if o >= r.dom || !r.present(o) {
            foreign(format!("removed #{o}, which is absent"));
        }
        r.cut(o);
        let l = r.d.len();
        return r.ok(l, "removal by position");
    }
    ev("remove", o, 0);
    let got = K::with_q(o, |q| r.d.remove(q));
    if got.is_some() != r.present(o) {
        foreign(format!("remove of #{o} found it: {}", got.is_some()));
    }
    drop(got);
    r.cut(o);
    let l = r.d.len();
    r.ok(l, "remove");
}

fn scan<D, K, V, A>(d: &D, rng: &mut Rng)
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    let n = rng.below(200) as usize;
    let mut i = d.iter();
    for _ in 0..n {
        i.next();
        i.next_back();
    }
}
fn tree<K: KeyT, V: ValT + Clone, A: Augmentation<K, V>>(ctx: &mut Ctx) {
    body::<Tree<K, V, A>, K, V, A>(ctx, Caps { clone: Some(|d| d.clone()), take: None, scan: scan::<_, K, V, A> })
}
fn tree_n<K: KeyT, V: ValT + Clone>(ctx: &mut Ctx) {
    body::<Tree<K, V, HeapN>, K, V, HeapN>(
        ctx,
        Caps {
            clone: Some(|d| d.clone()),
            take: Some(|d, i| d.take(i as u64).map(|e| e.0.o())),
            scan: scan::<_, K, V, HeapN>,
        },
    )
}
fn map<K: KeyT, V: ValT>(ctx: &mut Ctx) {
    body::<Map<K, V>, K, V, ()>(ctx, Caps { clone: None, take: None, scan: scan::<_, K, V, ()> })
}
fn set<K: KeyT>(ctx: &mut Ctx) {
    body::<Set<K>, K, (), ()>(ctx, Caps { clone: None, take: None, scan: |_, _| {} })
}

pub fn episode(ctx: &mut Ctx) {
    one_of!(ctx,
        3 => tree::<u64, u64, ()>(ctx),
        3 => tree_n::<u64, u64>(ctx),
        1 => tree_n::<String, Box8>(ctx),
        2 => tree::<u64, u64, Fold>(ctx),
        1 => tree::<Box<u64>, String, ()>(ctx),
        1 => tree::<u64, Big, ()>(ctx),
        1 => tree::<Al, Al, ()>(ctx),
        2 => map::<u64, u64>(ctx),
        1 => map::<String, String>(ctx),
        1 => map::<Vec<u8>, u8>(ctx),
        2 => set::<u64>(ctx),
        1 => set::<Box<u64>>(ctx),
    );
}

/// a boxed value
#[derive(Clone, Debug)]
pub struct Box8(Box<[u64; 8]>);
impl ValT for Box8 {
    const NAME: &'static str = "box";
    fn mk(v: u64) -> Self {
        Box8(Box::new([v; 8]))
    }
    fn get(&self) -> u64 {
        self.0[0]
    }
}
