//! The monitors, one module per property, and the history driver they share.
use crate::core::{base_op, ev, foreign, mix, set_episode, violation, Ctx, Rng};
use crate::dict::Dict;
use crate::model::{Act, Model, Shaper};
use crate::types::{KeyT, ValT};
use std::marker::PhantomData;
use sweep_bptree::augment::Augmentation;

macro_rules! props {
    ($($m:ident $f:literal $id:literal),*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn dispatch(prop: &str, ctx: &mut Ctx) -> bool {
            $(#[cfg(feature = $f)] {
                if prop == $id {
                    $m::episode(ctx);
                    return true;
                }
            })*
            let _ = (prop, ctx);
            false
        }
    };
}
props!(
    c01 "c01" "C01", c02 "c02" "C02", c03 "c03" "C03", c04 "c04" "C04", c05 "c05" "C05",
    c06 "c06" "C06", c07 "c07" "C07", c08 "c08" "C08", c09 "c09" "C09", c10 "c10" "C10",
    c11 "c11" "C11", c12 "c12" "C12", c13 "c13" "C13", c14 "c14" "C14", c15 "c15" "C15", c16 "c16" "C16",
    c17 "c17" "C17", c18 "c18" "C18", c19 "c19" "C19", c20 "c20" "C20"
);

/// Run one episode. Everything it does follows from (property, build variant, seed).
pub fn run_episode(prop: &str, ctx: &mut Ctx, seed: u64) -> bool {
    set_episode(prop, seed);
    let mut h = 99;
    for b in prop.bytes() {
        h = mix(h, b as u64);
    }
    ctx.rng = Rng::new(mix(h, seed));
    ctx.fp = 1;
    ctx.nontrivial = false;
    ctx.desc.clear();
    crate::types::ledger_reset();
    // in some episodes the user code which the collection calls uses another collection
    let nested = matches!(
        prop,
        "C01" | "C02" | "C05" | "C06" | "C09" | "C11" | "C14" | "C16" | "C17" | "C18" | "C20"
    ) && mix(h, seed ^ 77) % 6 == 0;
    if nested {
        ev("nested", 0, 0);
        let slow = if ctx.tier == crate::core::Tier::Miri { 16 } else { 1 };
        let every = slow * [1, 3, 16][(mix(h, seed ^ 78) % 3) as usize];
        crate::meddle::start(mix(h, seed ^ 79), ctx.n, matches!(prop, "C01" | "C17"), every);
    }
    if !dispatch(prop, ctx) {
        return false;
    }
    if let Some(acts) = crate::meddle::stop().filter(|a| *a > 0) {
        ctx.add("nested_episodes");
        ctx.st.add("nested_operations", acts);
    }
    ctx.st.add("episodes", 1);
    if ctx.nontrivial {
        ctx.st.add("episodes_nontrivial", 1);
        let fp = ctx.fp;
        if ctx.st.prints.len() < 40_000 {
            ctx.st.prints.insert(fp);
        }
        if ctx.st.samples.len() < 3 {
            let s = format!(
                "{{\"episode\":\"{seed}\",\"what\":{}}}",
                crate::core::json_str(&ctx.desc)
            );
            ctx.st.samples.push(s);
        }
    }
    true
}

/// run one of several monomorphic bodies, chosen by the episode's generator
#[macro_export]
macro_rules! one_of {
    ($ctx:expr, $($w:literal => $e:expr),+ $(,)?) => {{
        let total: u64 = 0 $(+ $w)+;
        let mut x = $ctx.rng.below(total);
        #[allow(unused_assignments, clippy::never_loop)]
        loop {
            $( if x < $w { $e; break; } x -= $w; )+
            unreachable!();
        }
    }};
}

pub type Res<T = ()> = Result<T, String>;
/// mismatch = the monitored property is refuted
pub fn own<T>(r: Res<T>) -> T {
    match r {
        Ok(t) => t,
        Err(m) => violation(m),
    }
}
/// mismatch = another property is broken, this episode ends without a verdict
pub fn other<T>(r: Res<T>) -> T {
    match r {
        Ok(t) => t,
        Err(m) => foreign(m),
    }
}

/// value and stored-key tag
pub type Pay = (u64, u32);

/// A collection next to its reference dictionary
pub struct Hist<D, K, V, A> {
    pub d: D,
    pub m: Model<Pay>,
    pub sh: Shaper,
    pub vc: u64,
    pub tc: u32,
    /// answers of the plain history are not what is monitored
    pub foreign: bool,
    pub peak: usize,
    pub _p: PhantomData<(K, V, A)>,
}
impl<D, K, V, A> Hist<D, K, V, A>
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    pub fn new(ctx: &mut Ctx, target: usize) -> Self {
        Self::with(ctx, D::create(), Model::new(), target)
    }
    pub fn with(ctx: &mut Ctx, d: D, m: Model<Pay>, target: usize) -> Self {
        let maxo = K::MAXO;
        let target = target.min((maxo as usize * 2 / 3).max(1));
        let sh = Shaper::new(&mut ctx.rng, ctx.n, target, maxo);
        let peak = m.len();
        Hist { d, m, sh, vc: 1, tc: 1, foreign: false, peak, _p: PhantomData }
    }
    pub fn ins(&mut self, ctx: &mut Ctx, o: u64) -> Res {
        self.vc += 1;
        self.tc += 1;
        // values repeat now and then, so that value-based summaries have ties
        let v = V::norm(if self.vc % 7 == 0 { self.vc / 7 } else { mix(self.vc, 3) >> 16 });
        ev("insert", o, v);
        let (k, v2) = (K::mk_tag(o, self.tc), V::mk(v));
        let got = base_op(self.foreign, || self.d.insert(k, v2)).map(|v| v.get());
        let want = match self.m.get_mut(o) {
            Some(p) => Some(std::mem::replace(&mut p.0, v)),
            None => {
                self.m.insert(o, (v, self.tc));
                None
            }
        };
        ctx.add("inserts");
        self.peak = self.peak.max(self.m.len());
        if want.is_some() {
            ctx.add("replacements");
        }
        if got != want {
            return Err(format!("insert of key #{o} returned {got:?}, the previous value is {want:?}"));
        }
        self.len_ok()
    }
    pub fn del(&mut self, ctx: &mut Ctx, o: u64) -> Res {
        ev("remove", o, 0);
        let got = base_op(self.foreign, || {
            if o % 2 == 0 {
                K::with_q(o, |q| self.d.remove(q))
            } else {
                let k = K::mk(o);
                self.d.remove::<K>(&k)
            }
        })
        .map(|v| v.get());
        let want = self.m.remove(o).map(|p| p.0);
        ctx.add(if want.is_some() { "removals" } else { "removals_of_absent" });
        if got != want {
            return Err(format!("remove of key #{o} returned {got:?}, the current value is {want:?}"));
        }
        self.len_ok()
    }
    pub fn len_ok(&self) -> Res {
        let (l, e) = (self.d.len(), self.d.is_empty());
        if l != self.m.len() || e != self.m.is_empty() {
            return Err(format!("len is {l} and is_empty {e} with {} entries present", self.m.len()));
        }
        Ok(())
    }
    pub fn pick(&mut self, ctx: &mut Ctx) -> Act {
        let mut a = self.sh.next(&mut ctx.rng, &self.m);
        match &mut a {
            Act::Ins(o) | Act::Del(o) => *o = (*o).min(K::MAXO - 1),
        }
        a
    }
    pub fn apply(&mut self, ctx: &mut Ctx, a: Act) -> Res {
        match a {
            Act::Ins(o) => self.ins(ctx, o),
            Act::Del(o) => self.del(ctx, o),
        }
    }
    pub fn step(&mut self, ctx: &mut Ctx) -> (Act, Res) {
        let a = self.pick(ctx);
        (a, self.apply(ctx, a))
    }
    /// run the generator until the collection holds about `target` entries, then `extra` more steps
    pub fn grow(&mut self, ctx: &mut Ctx, extra: usize) {
        let t = self.sh.target;
        let mut i = 0;
        while self.m.len() < t * 3 / 4 && i < 12 * t + 50 {
            let (_, r) = self.step(ctx);
            if self.foreign {
                other(r)
            } else {
                own(r)
            }
            i += 1;
        }
        for _ in 0..extra {
            let (_, r) = self.step(ctx);
            if self.foreign {
                other(r)
            } else {
                own(r)
            }
        }
    }
    /// a key number near something interesting
    pub fn probe_key(&self, ctx: &mut Ctx) -> u64 {
        let n = self.m.len();
        let o = match ctx.rng.below(8) {
            0 if n > 0 => self.m.at(0).saturating_sub(ctx.rng.below(2)),
            1 if n > 0 => self.m.at(n - 1) + ctx.rng.below(3),
            2 => ctx.rng.below(self.sh.dom.max(1)),
            3 if n > 0 => (self.m.at(ctx.rng.idx(n)) + 1).saturating_sub(ctx.rng.below(3)),
            _ if n > 0 => self.m.at(ctx.rng.idx(n)),
            _ => ctx.rng.below(self.sh.dom.max(1)),
        };
        o.min(K::MAXO - 1)
    }
    pub fn get_ok(&self, ctx: &mut Ctx, o: u64) -> Res {
        let want = self.m.get(o).map(|p| p.0);
        ev("get", o, 0);
        let got = if ctx.rng.chance(1, 2) {
            K::with_q(o, |q| self.d.get(q).map(|v| v.get()))
        } else {
            let k = K::mk(o);
            self.d.get::<K>(&k).map(|v| v.get())
        };
        ctx.add("lookups");
        if got != want {
            return Err(format!("lookup of key #{o} returned {got:?}, the value present is {want:?}"));
        }
        Ok(())
    }
    /// whole contents by forward iteration, against the dictionary
    pub fn contents_ok(&self, ctx: &mut Ctx, tags: bool) -> Res {
        ev("audit", self.m.len() as u64, 0);
        let mut i = 0;
        let mut last = None;
        for (k, v) in self.d.iter() {
            let (o, v) = (k.o(), v.get());
            if i >= self.m.len() {
                return Err(format!("iteration yields key #{o} after all {} entries", self.m.len()));
            }
            let (wo, (wv, wt)) = self.m.e[i];
            if o != wo || v != wv {
                return Err(format!(
                    "entry {i} of {} is (#{o}, {v}) after key {last:?}, expected (#{wo}, {wv})",
                    self.m.len()
                ));
            }
            if tags {
                if let Some(t) = k.tag() {
                    if t != wt {
                        return Err(format!("the key stored for #{o} was replaced (tag {t}, inserted with {wt})"));
                    }
                }
            }
            last = Some(o);
            i += 1;
        }
        if i != self.m.len() {
            return Err(format!("iteration ends after {i} of {} entries", self.m.len()));
        }
        ctx.add("audits");
        ctx.st.add("entries_audited", i as u64);
        ctx.note(mix(i as u64, last.unwrap_or(0)));
        Ok(())
    }
    /// every key by lookup, and absent neighbours
    pub fn lookups_ok(&self, ctx: &mut Ctx, stride: usize) -> Res {
        let mut i = 0;
        while i < self.m.len() {
            let o = self.m.at(i);
            self.get_ok(ctx, o)?;
            if o + 1 < K::MAXO && self.m.e.get(i + 1).map(|x| x.0) != Some(o + 1) {
                self.get_ok(ctx, o + 1)?;
            }
            i += 1 + if stride > 1 { ctx.rng.idx(stride) } else { 0 };
        }
        Ok(())
    }
    /// remember the shape of the tree as observed through a visitor
    pub fn record_shape(&self, ctx: &mut Ctx) {
        if D::VISIT && self.m.len() < 3000 && ctx.st.shapes.len() < 8000 {
            let s = crate::dict::snapshot::<D, K, V, A, ()>(&self.d, |_| (), 4 * self.m.len() + 64);
            ctx.st.shape(s.hash());
            ctx.st.max("deepest_tree", s.depth() as u64);
        }
    }
    pub fn ends_ok(&self, ctx: &mut Ctx) -> Res {
        ctx.add("first_last");
        let f = self.d.first().map(|x| x.map(|(k, v)| (k.o(), v.get())));
        let l = self.d.last().map(|x| x.map(|(k, v)| (k.o(), v.get())));
        let wf = self.m.e.first().map(|x| (x.0, x.1 .0));
        let wl = self.m.e.last().map(|x| (x.0, x.1 .0));
        if f.is_some_and(|f| f != wf) {
            return Err(format!("first() is {f:?}, the first entry is {wf:?}"));
        }
        if l.is_some_and(|l| l != wl) {
            return Err(format!("last() is {l:?}, the last entry is {wl:?}"));
        }
        Ok(())
    }
    pub fn describe(&self, ctx: &mut Ctx, what: &str, coll: &str) {
        use std::fmt::Write;
        ctx.desc.clear();
        let _ = write!(
            ctx.desc,
            "{what}: {coll}<{}, {}>, capacity {}, {} phases, peak {} entries, final {}",
            K::NAME,
            V::NAME,
            ctx.n,
            self.sh.phases,
            self.peak,
            self.m.len()
        );
        self.record_shape(ctx);
        ctx.st.max("peak_entries", self.peak as u64);
        ctx.st.add("phases", self.sh.phases);
        ctx.note(self.peak as u64);
        let h = self.m.e.iter().fold(self.vc, |h, x| mix(h, x.0 ^ x.1 .0.rotate_left(32)));
        ctx.note(h);
        if self.peak > ctx.n {
            ctx.nontrivial = true;
        }
    }
}
/// Sweeps over very many keys, for sizes that the histories do not reach (more than 2^16 entries,
/// more than 2^16 nodes). Each key is touched at most once per sweep.
impl<D, K, V, A> Hist<D, K, V, A>
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    pub fn giant(ctx: &mut Ctx, foreign: bool) -> Self {
        let n = if ctx.n <= 16 {
            match ctx.rng.below(10) {
                0..=4 => ctx.rng.range(20_000, 80_000),
                5..=7 => ctx.rng.range(80_000, 250_000),
                _ => ctx.rng.range(330_000, 420_000),
            }
        } else {
            match ctx.rng.below(10) {
                0..=5 => ctx.rng.range(30_000, 150_000),
                _ => ctx.rng.range(150_000, 500_000),
            }
        };
        ctx.add("giants");
        let gap = ctx.rng.pick(&[1, 2, 3, 8]);
        let mut h;
        if ctx.rng.chance(1, 5) {
            let e: Vec<(u64, Pay)> = (0..n).map(|i| (i * gap, (V::norm(i * 3), 0))).collect();
            let d = D::bulk(e.iter().map(|x| (K::mk(x.0), V::mk(x.1 .0))).collect());
            h = Hist::with(ctx, d, Model { e }, n as usize);
            h.foreign = foreign;
        } else {
            h = Hist::new(ctx, n as usize);
            h.foreign = foreign;
            // in several passes
            let passes = ctx.rng.pick(&[1, 1, 2, 5]);
            for p in 0..passes {
                let keys = (0..n).filter(|i| i % passes == p).map(|i| i * gap).collect();
                h.sweep(ctx, keys, true);
            }
        }
        h.sh.dom = (n * gap).min(K::MAXO);
        h
    }
    /// a sweep of random kind; returns what it was
    pub fn any_sweep(&mut self, ctx: &mut Ctx) -> &'static str {
        let n = self.m.len();
        if n == 0 || ctx.rng.chance(1, 4) {
            // fill gaps and replace
            let (lo, st) = (ctx.rng.below(self.sh.dom.max(1)), ctx.rng.range(1, 9));
            let c = ctx.rng.below(n as u64 / 2 + 1000);
            let keys = (0..c).map(|i| lo + i * st).filter(|o| *o < K::MAXO).collect();
            self.sweep(ctx, keys, true);
            return "a sweep of insertions";
        }
        let a = ctx.rng.idx(n);
        let keys: Vec<u64> = match ctx.rng.below(5) {
            // thinned out
            0 => {
                let k = ctx.rng.range(2, 70) as usize;
                (0..n).filter(|i| i % k != a % k).map(|i| self.m.at(i)).collect()
            }
            1 => {
                let k = ctx.rng.range(2, 20) as usize;
                (0..n).filter(|i| i % k == a % k).map(|i| self.m.at(i)).collect()
            }
            // a range
            2 => self.m.e[a..(a + n / 3).min(n)].iter().map(|x| x.0).collect(),
            3 => self.m.e[..a].iter().map(|x| x.0).collect(),
            _ => self.m.e[a..].iter().map(|x| x.0 + ctx.rng.below(2)).filter(|o| *o < K::MAXO).collect(),
        };
        self.sweep(ctx, keys, false);
        "a sweep of removals"
    }
    pub fn sweep(&mut self, ctx: &mut Ctx, mut keys: Vec<u64>, ins: bool) {
        keys.sort();
        keys.dedup();
        ctx.add("sweeps");
        ev("sweep", keys.len() as u64, ins as u64);
        match ctx.rng.below(5) {
            0 | 1 => {}
            2 => keys.reverse(),
            3 => {
                for i in (1..keys.len()).rev() {
                    let j = ctx.rng.idx(i + 1);
                    keys.swap(i, j);
                }
            }
            _ => {
                // blocks in random order
                let b = ctx.rng.range(2, 3000) as usize;
                let mut v: Vec<Vec<u64>> = keys.chunks(b).map(|c| c.to_vec()).collect();
                for i in (1..v.len()).rev() {
                    let j = ctx.rng.idx(i + 1);
                    v.swap(i, j);
                }
                keys = v.concat();
            }
        }
        let mut put = Vec::new();
        for o in &keys {
            let want = self.m.get(*o).map(|p| p.0);
            let got = if ins {
                self.vc += 1;
                self.tc += 1;
                let v = V::norm(mix(self.vc, 3) >> 16);
                let (k, w) = (K::mk_tag(*o, self.tc), V::mk(v));
                put.push((*o, (v, self.tc)));
                base_op(self.foreign, || self.d.insert(k, w))
            } else {
                base_op(self.foreign, || K::with_q(*o, |q| self.d.remove(q)))
            }
            .map(|v| v.get());
            if got != want {
                let e = format!(
                    "{} of key #{o} returned {got:?}, the value present was {want:?} (a sweep over {} keys)",
                    if ins { "insertion" } else { "removal" },
                    keys.len()
                );
                if self.foreign {
                    foreign(e)
                }
                violation(e)
            }
            crate::core::progress();
        }
        let old = std::mem::take(&mut self.m.e);
        if ins {
            put.sort();
            let mut p = put.into_iter().peekable();
            let mut e = Vec::with_capacity(old.len() + p.len());
            for x in old {
                while p.peek().is_some_and(|y| y.0 < x.0) {
                    e.extend(p.next());
                }
                if p.peek().is_some_and(|y| y.0 == x.0) {
                    // the stored key stays
                    let y = p.next().unwrap();
                    e.push((x.0, (y.1 .0, x.1 .1)));
                } else {
                    e.push(x);
                }
            }
            e.extend(p);
            self.m.e = e;
        } else {
            keys.sort();
            self.m.e = old.into_iter().filter(|x| keys.binary_search(&x.0).is_err()).collect();
        }
        self.peak = self.peak.max(self.m.len());
        ctx.st.add("keys_swept", keys.len() as u64);
        let r = self.len_ok();
        if self.foreign {
            other(r)
        } else {
            own(r)
        }
    }
    /// a giant, an audit after each of a few sweeps, some single steps
    pub fn giant_session(ctx: &mut Ctx, foreign: bool, what: &str, mut audit: impl FnMut(&mut Ctx, &mut Self, &'static str)) -> Self {
        let mut h = Self::giant(ctx, foreign);
        audit(ctx, &mut h, "built");
        for _ in 0..ctx.rng.range(1, 5) {
            if ctx.late() {
                break;
            }
            let w = h.any_sweep(ctx);
            for _ in 0..300 {
                let a = if ctx.rng.chance(1, 2) { Act::Ins(h.probe_key(ctx)) } else { Act::Del(h.probe_key(ctx)) };
                let r = h.apply(ctx, a);
                if h.foreign {
                    other(r)
                } else {
                    own(r)
                }
            }
            audit(ctx, &mut h, w);
        }
        h.describe(ctx, what, coll_name(D::TREE));
        h
    }
}

pub const fn coll_name(tree: bool) -> &'static str {
    if tree {
        "BPlusTree"
    } else {
        "BPlusTreeMap/Set"
    }
}

/// is an O(len) audit affordable now? On average one per `max(8, len / div)` calls.
pub fn due(ctx: &mut Ctx, len: usize, div: usize) -> bool {
    let d = (len / div).max(if len < 2 * ctx.n { 2 } else { 8 });
    ctx.rng.chance(1, d as u64)
}

/// sorted strictly ascending key numbers of a random pattern
pub fn pattern(rng: &mut Rng, n: usize, maxo: u64) -> Vec<u64> {
    let gap = rng.pick(&[1u64, 1, 2, 7, 1000]).min((maxo / (n as u64 + 1)).max(1));
    let mut o = rng.below(5.min(maxo));
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        if o >= maxo {
            break;
        }
        v.push(o);
        o += if gap == 1 { 1 } else { 1 + rng.below(gap) };
    }
    v
}
