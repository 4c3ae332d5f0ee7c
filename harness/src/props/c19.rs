//! C19: the rebalancing counters report exactly what happened.
//! Around every removal the shape of the tree is recorded through the public visitor. The monitor
//! reconstructs from the two shapes which nodes merged and which entries moved between siblings,
//! level by level, and compares that with the change of the counters.
use super::*;
use crate::dict::{snapshot, Snap, Tree};
use crate::one_of;
use crate::types::*;
use sweep_bptree::augment::SearchAugmentation;
use sweep_bptree::tree::Statistic;

const NAMES: [&str; 8] = [
    "rotate_right_leaf",
    "rotate_left_leaf",
    "merge_with_left_leaf",
    "merge_with_right_leaf",
    "rotate_right_inner",
    "rotate_left_inner",
    "merge_with_left_inner",
    "merge_with_right_inner",
];
type St = [u64; 8];
fn st(s: &Statistic) -> St {
    [
        s.rotate_right_leaf,
        s.rotate_left_leaf,
        s.merge_with_left_leaf,
        s.merge_with_right_leaf,
        s.rotate_right_inner,
        s.rotate_left_inner,
        s.merge_with_left_inner,
        s.merge_with_right_inner,
    ]
}
fn show(s: &St) -> String {
    let v: Vec<String> = (0..8).filter(|i| s[*i] != 0).map(|i| format!("{} {}", NAMES[i], s[i])).collect();
    if v.is_empty() {
        "nothing".into()
    } else {
        v.join(", ")
    }
}

/// what happened at one level: sizes before (already reduced at `at`) against sizes after
#[derive(Debug, PartialEq)]
enum Step {
    Same,
    /// entry moved from node j to node j + 1
    Right(usize),
    /// entry moved from node j + 1 to node j
    Left(usize),
    /// nodes j and j + 1 became one
    Merge(usize),
}
fn level(b: &[usize], a: &[usize]) -> Option<Step> {
    if b == a {
        return Some(Step::Same);
    }
    if b.len() == a.len() {
        let j = (0..b.len()).find(|i| b[*i] != a[*i])?;
        if j + 1 >= b.len() || b[j + 2..] != a[j + 2..] {
            return None;
        }
        return match (a[j] as i64 - b[j] as i64, a[j + 1] as i64 - b[j + 1] as i64) {
            (-1, 1) => Some(Step::Right(j)),
            (1, -1) => Some(Step::Left(j)),
            _ => None,
        };
    }
    if b.len() == a.len() + 1 {
        let j = (0..a.len()).find(|i| b[*i] != a[*i]).unwrap_or(a.len() - 1);
        if b[j] + b[j + 1] == a[j] && b[j + 2..] == a[j + 1..] {
            return Some(Step::Merge(j));
        }
    }
    None
}

/// The counters a removal of key `o` must have moved, from the shapes before and after.
/// The flag says that merges with the left and with the right cannot be told apart.
fn expected(before: &Snap<()>, after: &Snap<()>, o: u64) -> Res<(St, bool)> {
    let mut want = [0; 8];
    let mut any = false;
    let (mut b, mut a) = (before.levels(), after.levels());
    b.reverse();
    a.reverse();
    // which leaf held it
    let mut at = None;
    for (i, l) in before.leaves().enumerate() {
        if l.keys.contains(&o) {
            at = Some(i);
        }
    }
    let Some(mut at) = at else {
        return Err(format!("no leaf shows key #{o} although it is present"));
    };
    for h in 0..b.len() {
        b[h][at] -= 1;
        let odd = || format!("level {h} above the leaves went from {:?} (node {at} reduced) to {:?}", b[h], a.get(h));
        let Some(ah) = a.get(h) else {
            // the root was left with one child and given up
            if h + 1 == b.len() && h > 0 && b[h] == [1] {
                return Ok((want, any));
            }
            return Err(odd());
        };
        let inner = if h == 0 { 0 } else { 4 };
        match level(&b[h], ah) {
            None => return Err(odd()),
            Some(Step::Same) => return Ok((want, any)),
            Some(Step::Right(_)) => {
                want[inner] += 1;
                return Ok((want, any));
            }
            Some(Step::Left(_)) => {
                want[inner + 1] += 1;
                return Ok((want, any));
            }
            Some(Step::Merge(j)) => {
                if b[h][at] == 0 {
                    // nothing of the reduced node is left, so the shape does not tell which side took it
                    any = true;
                    want[inner + 2] += 1;
                } else if j + 1 == at {
                    want[inner + 2] += 1;
                } else if j == at {
                    want[inner + 3] += 1;
                } else {
                    return Err(odd());
                }
                // the parent of the two lost a child
                if h + 1 < b.len() {
                    let (mut p, mut seen) = (0, 0);
                    while seen + b[h + 1][p] <= j {
                        seen += b[h + 1][p];
                        p += 1;
                    }
                    at = p;
                } else {
                    return Err(odd());
                }
            }
        }
    }
    Ok((want, any))
}

struct Mon<K: KeyT, V: ValT, A: AggT<K, V>> {
    h: Hist<Tree<K, V, A>, K, V, A>,
    last: St,
    /// total moved so far
    moved: u64,
}
impl<K: KeyT, V: ValT, A: AggT<K, V> + SearchAugmentation<K, V, Query = Find>> Mon<K, V, A> {
    fn unchanged(&mut self, ctx: &mut Ctx, what: &str) {
        let now = st(self.h.d.statistic());
        ctx.add("quiet_operations");
        check!(
            now == self.last,
            "{what} changed the rebalancing counters from [{}] to [{}]",
            show(&self.last),
            show(&now)
        );
    }
    fn snap(&self) -> Snap<()> {
        snapshot(&self.h.d, |_| (), 4 * self.h.m.len() + 64)
    }
    fn delta(&mut self, ctx: &mut Ctx, what: &str) -> St {
        let now = st(self.h.d.statistic());
        let mut d = [0; 8];
        for i in 0..8 {
            check!(
                now[i] >= self.last[i],
                "{what} decreased {} from {} to {}",
                NAMES[i],
                self.last[i],
                now[i]
            );
            d[i] = now[i] - self.last[i];
            if d[i] > 0 {
                ctx.st.add(NAMES[i], d[i]);
                self.moved += d[i];
            }
        }
        self.last = now;
        d
    }
    /// remove a present key, judged exactly when `exact`
    fn remove(&mut self, ctx: &mut Ctx, i: usize, by_search: bool, exact: bool) {
        let o = self.h.m.at(i);
        let before = exact.then(|| self.snap());
        if by_search {
            ev("take", i as u64, 0);
            let q = match ctx.rng.below(3) {
                0 => Find::Nth(i as u64),
                1 => Find::NthBack((self.h.m.len() - 1 - i) as u64),
                _ => Find::ByKey(o),
            };
            let got = base_op(true, || self.h.d.remove_by_augmentation(q)).map(|(k, v)| (k.o(), v.get()));
            let want = self.h.m.remove(o).map(|p| (o, p.0));
            if got != want {
                foreign(format!("removal by search returned {got:?}, not {want:?}"));
            }
            ctx.add("removals_by_search");
        } else {
            other(self.h.del(ctx, o));
        }
        let d = self.delta(ctx, "a removal");
        let Some(before) = before else {
            // at most one rotation per removal, at most one merge per level, no rotation below a merge
            ctx.add("removals_sampled_out");
            return;
        };
        let after = self.snap();
        let (mut want, any) = other(expected(&before, &after, o));
        if any {
            ctx.add("side_of_merge_unknown");
            for i in [2, 6] {
                if want[i] + want[i + 1] == d[i] + d[i + 1] {
                    want[i] = d[i];
                    want[i + 1] = d[i + 1];
                }
            }
        }
        ctx.add("removals_judged");
        let merges = want[2] + want[3] + want[6] + want[7];
        ctx.st.max("merges_in_one_removal", merges);
        if want.iter().any(|x| *x > 0) {
            ctx.add("rebalancing_removals");
            if merges > 0 && (want[4] + want[5]) > 0 {
                ctx.add("merge_then_inner_move");
            }
        }
        check!(
            d == want,
            "removing key #{o} moved the counters by [{}], but the tree shows [{}] (level sizes from the root: {:?} to {:?})",
            show(&d),
            show(&want),
            before.levels(),
            after.levels()
        );
    }
    fn quiet(&mut self, ctx: &mut Ctx) {
        let o = self.h.probe_key(ctx);
        match ctx.rng.below(9) {
            0 => {
                other(self.h.get_ok(ctx, o));
                self.unchanged(ctx, "a lookup");
            }
            1 => {
                K::with_q(o, |q| {
                    if let Some(v) = self.h.d.get_mut(q) {
                        let w = V::norm(o ^ 77);
                        *v = V::mk(w);
                        if let Some(p) = self.h.m.get_mut(o) {
                            p.0 = w
                        }
                    }
                });
                self.unchanged(ctx, "an in-place update");
            }
            2 => {
                if self.h.m.get(o).is_none() {
                    other(self.h.del(ctx, o));
                    self.unchanged(ctx, "removing an absent key");
                }
            }
            3 => {
                other(self.h.contents_ok(ctx, false));
                self.unchanged(ctx, "a traversal");
            }
            4 => {
                let k = K::mk(o);
                if let Some(c) = self.h.d.get_cursor(&k).map(|x| x.0) {
                    let c2 = c.next(&self.h.d).or_else(|| c.prev(&self.h.d));
                    drop(c2);
                }
                let _ = self.h.d.cursor_first().is_some();
                self.unchanged(ctx, "cursor use");
            }
            5 => {
                let n = self.h.m.len() as u64;
                let q = Find::Nth(ctx.rng.below(n + 2));
                let _ = self.h.d.get_by_augmentation(q);
                let _ = self.h.d.remove_by_augmentation(Find::Nth(n + ctx.rng.below(3)));
                self.unchanged(ctx, "a search and a removal by search without a match");
            }
            6 => {
                let n = self.h.m.len();
                if n > 0 {
                    let o = self.h.m.at(ctx.rng.idx(n));
                    other(self.h.ins(ctx, o));
                    self.unchanged(ctx, "replacing a value");
                }
            }
            7 => {
                let _ = self.snap();
                self.unchanged(ctx, "a visitor");
            }
            _ => {
                other(self.h.ins(ctx, o));
                self.unchanged(ctx, "an insertion");
            }
        }
    }
}

fn body<K: KeyT, V: ValT + Clone, A: AggT<K, V> + SearchAugmentation<K, V, Query = Find> + Clone>(ctx: &mut Ctx) {
    let target = ctx.size().min(if ctx.n <= 16 { 1500 } else { 12_000 });
    let steps = ctx.steps(900);
    let mut h: Hist<Tree<K, V, A>, K, V, A> = if ctx.rng.chance(1, 3) {
        let ks = pattern(&mut ctx.rng, target, K::MAXO);
        let items: Vec<(K, V)> = ks.iter().map(|o| (K::mk(*o), V::mk(V::norm(*o)))).collect();
        let t: Tree<K, V, A> = base_op(true, || Tree::bulk_load(items));
        let mut m = Model::new();
        for o in &ks {
            m.e.push((*o, (V::norm(*o), 0)));
        }
        ctx.add("bulk_loads");
        Hist::with(ctx, t, m, target)
    } else {
        Hist::new(ctx, target)
    };
    h.foreign = true;
    let mut m = Mon { last: st(h.d.statistic()), h, moved: 0 };
    check!(m.last == [0; 8], "a new tree starts with counters [{}]", show(&m.last));
    let mut i = 0;
    let mut removed = 0;
    // the full walk costs about one visit per node
    while i < steps * 4 && removed < steps && !(ctx.late() && i > 20) {
        i += 1;
        let len = m.h.m.len();
        let nodes = len / (ctx.n / 4).max(1) + 1;
        let exact = nodes < 80 || ctx.rng.chance(80, nodes as u64);
        let act = m.h.pick(ctx);
        match act {
            Act::Ins(o) => {
                other(m.h.ins(ctx, o));
                m.unchanged(ctx, "an insertion");
                // growth is free
                if m.h.m.len() * 2 < target && ctx.rng.chance(7, 8) {
                    i -= 1;
                }
            }
            Act::Del(o) => match m.h.m.find(o) {
                Ok(p) => {
                    removed += 1;
                    let by = ctx.rng.chance(1, 3);
                    m.remove(ctx, p, by, exact);
                }
                Err(_) => {
                    other(m.h.del(ctx, o));
                    m.unchanged(ctx, "removing an absent key");
                }
            },
        }
        if ctx.rng.chance(1, 12) {
            m.quiet(ctx);
        }
        if ctx.rng.chance(1, 250) {
            let c = base_op(true, || m.h.d.clone());
            m.unchanged(ctx, "cloning");
            let cs = st(c.statistic());
            check!(cs == m.last, "a clone starts with counters [{}], the original has [{}]", show(&cs), show(&m.last));
            ctx.add("clones");
            if ctx.rng.chance(1, 2) {
                // continue on the clone, the original keeps its counters
                let old = std::mem::replace(&mut m.h.d, c);
                let was = m.last;
                for _ in 0..ctx.rng.below(30) {
                    let n = m.h.m.len();
                    if n > 0 {
                        let p = ctx.rng.idx(n);
                        m.remove(ctx, p, false, nodes < 80);
                    }
                }
                let now = st(old.statistic());
                check!(now == was, "removals on a clone changed the original's counters from [{}] to [{}]", show(&was), show(&now));
            } else {
                // spend the clone
                let mut c = c;
                for (o, _) in m.h.m.e.iter().take(ctx.rng.below(60) as usize) {
                    K::with_q(*o, |q| drop(base_op(true, || c.remove(q))));
                }
                drop(c);
                m.unchanged(ctx, "removals on a clone");
            }
        }
        if ctx.rng.chance(1, 1500) && m.moved > 0 {
            base_op(true, || m.h.d.clear());
            m.h.m.e.clear();
            let now = st(m.h.d.statistic());
            check!(now == [0; 8], "after clear the counters are [{}], not zero (before: [{}])", show(&now), show(&m.last));
            m.last = now;
            ctx.add("clears");
        }
    }
    if m.moved > 0 && ctx.rng.chance(1, 3) {
        base_op(true, || m.h.d.clear());
        m.h.m.e.clear();
        let now = st(m.h.d.statistic());
        check!(now == [0; 8], "after clear the counters are [{}], not zero (before: [{}])", show(&now), show(&m.last));
        ctx.add("clears");
    } else if m.moved > 0 {
        // building anew from what this tree held starts from zero
        let d = std::mem::replace(&mut m.h.d, Tree::new(crate::dict::Store::new()));
        let t: Tree<K, V, A> = base_op(true, || Tree::bulk_load(d.into_iter().collect::<Vec<_>>()));
        let now = st(t.statistic());
        check!(now == [0; 8], "a bulk-loaded tree starts with counters [{}]", show(&now));
        ctx.add("bulk_loads");
        m.h.d = t;
    }
    ctx.note(m.moved);
    ctx.nontrivial = m.moved > 0;
    let moved = m.moved;
    m.h.describe(ctx, "removals judged against the shape", "BPlusTree");
    ctx.nontrivial = moved > 0;
    use std::fmt::Write;
    let _ = write!(ctx.desc, ", {removed} removals, counters moved by {moved}");
}

/// one small tree over hundreds of thousands of removals, so that the counters themselves get large
fn marathon(ctx: &mut Ctx) {
    let n = ctx.n as u64;
    let size = ctx.rng.range(3 * n, 14 * n);
    let ops = ctx.rng.pick(&[60_000, 300_000, 700_000, 1_200_000]);
    let h: Hist<Tree<u64, u64, Fold>, u64, u64, Fold> = Hist::new(ctx, 4 * size as usize);
    let mut m = Mon { last: [0; 8], h, moved: 0 };
    m.h.foreign = true;
    let mode = ctx.rng.below(4);
    let mid = <u64 as KeyT>::MAXO / 2;
    let (mut lo, mut hi) = (mid, mid);
    for i in 0..ops {
        if ctx.late() {
            break;
        }
        // a queue in one direction or the other, now and then both ends, or a random set
        let up = if mode == 2 { (i / 5_000) % 2 == 0 } else { mode == 0 };
        let o = match mode {
            3 => ctx.rng.below(4 * size),
            _ if up => {
                hi += 1;
                hi
            }
            _ => {
                lo -= 1;
                lo
            }
        };
        other(m.h.ins(ctx, o));
        if i % 16 == 0 {
            m.unchanged(ctx, "an insertion");
        }
        while m.h.m.len() as u64 > size {
            let l = m.h.m.len();
            let p = match mode {
                3 => ctx.rng.idx(l),
                _ if up => 0,
                _ => l - 1,
            };
            let exact = ctx.rng.chance(1, 40);
            m.remove(ctx, p, false, exact);
        }
    }
    ctx.add("marathons");
    let top = *m.last.iter().max().unwrap();
    ctx.st.max("largest_counter", top);
    ctx.note(top);
    ctx.nontrivial = m.moved > 0;
    ctx.desc.clear();
    ctx.desc.push_str(&format!("a tree of {size} entries through {ops} insertions and removals, counters [{}]", show(&m.last)));
}

pub fn episode(ctx: &mut Ctx) {
    if ctx.tier == crate::core::Tier::Native && ctx.rng.chance(1, 60) {
        return marathon(ctx);
    }
    one_of!(ctx,
        5 => body::<u64, u64, Fold>(ctx),
        3 => body::<String, u64, Fold>(ctx),
        2 => body::<(u32, u16), String, HeapFold>(ctx),
        2 => body::<Al, u8, Fold>(ctx),
    )
}
