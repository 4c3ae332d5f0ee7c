//! C20: the tree and its node store. A store written here stands between the tree and its nodes: it
//! hands out ids of any kind, remembers leaves in any admissible way, and judges every access.
use super::*;
use crate::dict::{shape, Tree};
use crate::one_of;
use crate::types::*;
use std::borrow::Borrow;
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use sweep_bptree::augment::{RankAugmentation, SearchAugmentation};
use sweep_bptree::tree::visit::DescendVisit;
use sweep_bptree::tree::{Cursor, InnerNode, InnerNodeId, LeafNode, LeafNodeId, NodeId};
use sweep_bptree::{BPlusTree, Key, NodeStore, NodeStoreVec};

// ---------------------------------------------------------------- the monitoring store
#[derive(Clone, Copy, Default)]
struct Policy {
    ids: u8,
    cache: u8,
    seed: u64,
}
thread_local! {
    static POLICY: Cell<Policy> = const { Cell::new(Policy { ids: 0, cache: 0, seed: 1 }) };
}

#[derive(Clone)]
enum St<T> {
    Reserved,
    Live(Box<T>),
}
/// nodes by id; which ids come next is up to the policy
#[derive(Clone)]
struct Bag<T> {
    at: HashMap<usize, St<T>>,
    /// live or reserved ids, for sampling
    list: Vec<usize>,
    pos: HashMap<usize, usize>,
    free: Vec<usize>,
    issued: usize,
    rng: u64,
    base: u64,
    ids: u8,
    max: usize,
}
const ID_WAYS: u8 = 8;
impl<T> Bag<T> {
    fn new(p: Policy, salt: u64) -> Self {
        Bag {
            at: HashMap::new(),
            list: Vec::new(),
            pos: HashMap::new(),
            free: Vec::new(),
            issued: 0,
            rng: mix(p.seed, salt),
            base: mix(p.seed, salt),
            ids: p.ids,
            max: 0,
        }
    }
    fn id(&mut self) -> usize {
        self.rng = mix(self.rng, 0x1d5);
        let n = self.issued;
        self.issued += 1;
        match self.ids {
            // dense, last freed first
            0 => self.free.pop().unwrap_or(n),
            // never again
            1 => n,
            // far apart
            2 => loop {
                let x = (mix(self.rng, n as u64) >> 2) as usize;
                if !self.at.contains_key(&x) {
                    return x;
                }
                self.rng = mix(self.rng, 1);
            },
            // downwards from the top
            3 => usize::MAX - 1 - n,
            // first freed first
            4 => {
                if self.free.is_empty() {
                    n * 3 + 7
                } else {
                    self.free.remove(0)
                }
            }
            // dense, but in another order, so that number 0 is any node
            6 => n ^ (self.base as usize & 127),
            // any small number that is free
            7 => loop {
                let x = (mix(self.rng, n as u64) >> 8) as usize % (4 * self.list.len() + 8);
                if !self.at.contains_key(&x) {
                    return x;
                }
                self.rng = mix(self.rng, 1);
            },
            // any freed one, sometimes
            _ => {
                if self.free.is_empty() || self.rng % 3 == 0 {
                    n
                } else {
                    let i = (self.rng >> 8) as usize % self.free.len();
                    self.free.swap_remove(i)
                }
            }
        }
    }
    fn put(&mut self, id: usize, s: St<T>) {
        if self.at.insert(id, s).is_none() {
            self.pos.insert(id, self.list.len());
            self.list.push(id);
            self.max = self.max.max(self.list.len());
        }
    }
    fn take(&mut self, id: usize) -> Option<St<T>> {
        let s = self.at.remove(&id)?;
        let i = self.pos.remove(&id).unwrap();
        self.list.swap_remove(i);
        if let Some(m) = self.list.get(i) {
            self.pos.insert(*m, i);
        }
        self.free.push(id);
        Some(s)
    }
    fn live(&self, id: usize) -> Option<&T> {
        match self.at.get(&id) {
            Some(St::Live(b)) => Some(b),
            _ => None,
        }
    }
    fn need(&self, id: usize, what: &str) -> &T {
        match self.at.get(&id) {
            Some(St::Live(b)) => b,
            x => not_stored(x.is_some(), id, what),
        }
    }
    fn need_mut(&mut self, id: usize, what: &str) -> &mut T {
        match self.at.get_mut(&id) {
            Some(St::Live(b)) => b,
            x => not_stored(x.is_some(), id, what),
        }
    }
}
#[cold]
fn not_stored(reserved: bool, id: usize, what: &str) -> ! {
    crate::fail!(
        "the tree {what} {id:#x}, which is {}",
        if reserved { "reserved and not assigned yet" } else { "not stored (never issued, or taken before)" }
    )
}

pub struct Spy<K: Key, V, A: Augmentation<K, V>> {
    leaves: Bag<LeafNode<K, V>>,
    inners: Bag<InnerNode<K, A>>,
    last: Cell<usize>,
    pol: Policy,
    rng: Cell<u64>,
    /// nodes named by the tree
    touched: Cell<u64>,
    hits: Cell<u64>,
}
impl<K: Key, V, A: Augmentation<K, V>> Default for Spy<K, V, A> {
    fn default() -> Self {
        let p = POLICY.with(|p| {
            let mut x = p.get();
            x.seed = mix(x.seed, 5);
            p.set(x);
            x
        });
        Spy {
            leaves: Bag::new(p, 1),
            // sometimes the same numbers as the leaves
            inners: Bag::new(p, if p.seed % 2 == 0 { 1 } else { 2 }),
            last: Cell::new(usize::MAX),
            pol: p,
            rng: Cell::new(p.seed),
            touched: Cell::new(0),
            hits: Cell::new(0),
        }
    }
}
impl<K: Key, V: Clone, A: Augmentation<K, V>> Clone for Spy<K, V, A> {
    fn clone(&self) -> Self {
        Spy {
            leaves: self.leaves.clone(),
            inners: self.inners.clone(),
            last: self.last.clone(),
            pol: self.pol,
            rng: self.rng.clone(),
            touched: self.touched.clone(),
            hits: self.hits.clone(),
        }
    }
}
impl<K: Key, V, A: Augmentation<K, V>> Spy<K, V, A> {
    fn touch(&self) {
        self.touched.set(self.touched.get() + 1);
    }
}
impl<K: Key, V, A: Augmentation<K, V>> NodeStore for Spy<K, V, A> {
    type K = K;
    type V = V;
    type Augmentation = A;
    fn inner_n() -> u16 {
        InnerNode::<K, A>::max_capacity()
    }
    fn leaf_n() -> u16 {
        LeafNode::<K, V>::max_capacity()
    }
    fn add_inner(&mut self, node: Box<InnerNode<K, A>>) -> InnerNodeId {
        self.touch();
        let id = self.inners.id();
        self.inners.put(id, St::Live(node));
        InnerNodeId::from_usize(id)
    }
    fn get_inner(&self, id: InnerNodeId) -> &InnerNode<K, A> {
        self.touch();
        self.inners.need(id.as_usize(), "reads inner node")
    }
    fn try_get_inner(&self, id: InnerNodeId) -> Option<&InnerNode<K, A>> {
        self.touch();
        self.inners.live(id.as_usize())
    }
    fn get_mut_inner(&mut self, id: InnerNodeId) -> &mut InnerNode<K, A> {
        self.touch();
        self.inners.need_mut(id.as_usize(), "modifies inner node")
    }
    unsafe fn get_mut_inner_ptr(&mut self, id: InnerNodeId) -> *mut InnerNode<K, A> {
        self.touch();
        self.inners.need_mut(id.as_usize(), "points to inner node") as *mut _
    }
    fn take_inner(&mut self, id: InnerNodeId) -> Box<InnerNode<K, A>> {
        self.touch();
        match self.inners.take(id.as_usize()) {
            Some(St::Live(b)) => b,
            x => not_stored(x.is_some(), id.as_usize(), "takes inner node"),
        }
    }
    fn put_back_inner(&mut self, id: InnerNodeId, node: Box<InnerNode<K, A>>) {
        self.touch();
        let id = id.as_usize();
        let Some(i) = self.inners.free.iter().position(|x| *x == id) else {
            crate::fail!("the tree puts back inner node {id:#x}, which was not taken");
        };
        self.inners.free.swap_remove(i);
        self.inners.put(id, St::Live(node));
    }
    fn new_empty_leaf(&mut self) -> (LeafNodeId, &mut LeafNode<K, V>) {
        self.touch();
        let id = self.leaves.id();
        self.leaves.put(id, St::Live(LeafNode::new()));
        (LeafNodeId::from_usize(id), self.leaves.need_mut(id, "creates leaf"))
    }
    fn reserve_leaf(&mut self) -> LeafNodeId {
        self.touch();
        let id = self.leaves.id();
        self.leaves.put(id, St::Reserved);
        LeafNodeId::from_usize(id)
    }
    fn get_leaf(&self, id: LeafNodeId) -> &LeafNode<K, V> {
        self.touch();
        self.leaves.need(id.as_usize(), "reads leaf")
    }
    fn try_get_leaf(&self, id: LeafNodeId) -> Option<&LeafNode<K, V>> {
        self.touch();
        self.leaves.live(id.as_usize())
    }
    fn get_mut_leaf(&mut self, id: LeafNodeId) -> &mut LeafNode<K, V> {
        self.touch();
        self.leaves.need_mut(id.as_usize(), "modifies leaf")
    }
    fn take_leaf(&mut self, id: LeafNodeId) -> Box<LeafNode<K, V>> {
        self.touch();
        match self.leaves.take(id.as_usize()) {
            Some(St::Live(b)) => b,
            x => not_stored(x.is_some(), id.as_usize(), "takes leaf"),
        }
    }
    fn assign_leaf(&mut self, id: LeafNodeId, leaf: Box<LeafNode<K, V>>) {
        self.touch();
        let id = id.as_usize();
        match self.leaves.at.get(&id) {
            Some(St::Reserved) => {}
            Some(St::Live(_)) => crate::fail!("the tree assigns leaf {id:#x} over the leaf stored there"),
            None => crate::fail!("the tree assigns leaf {id:#x}, which is not reserved"),
        }
        self.leaves.put(id, St::Live(leaf));
    }
    fn cache_leaf(&self, id: LeafNodeId) {
        let id = id.as_usize();
        // the library's own way to say "none" is the greatest number; a leaf may still be on its way in
        if id != usize::MAX && !self.leaves.at.contains_key(&id) {
            crate::fail!("the tree wants leaf {id:#x} remembered, which is not stored");
        }
        self.last.set(id);
    }
    fn try_cache<Q>(&self, k: &Q) -> Option<LeafNodeId>
    where
        Q: ?Sized + Ord,
        K: Borrow<Q>,
    {
        let fits = |id: usize| self.leaves.live(id).is_some_and(|l| l.in_range(k));
        let r = match self.pol.cache {
            // forgets everything
            0 => None,
            1 => Some(self.last.get()).filter(|id| fits(*id)),
            // any leaf that covers the key
            _ => {
                let n = self.leaves.list.len();
                let (start, tries) = (mix(self.rng.get(), 9), if n < 40 { n } else { 6 });
                self.rng.set(start);
                (0..tries).map(|i| self.leaves.list[(start as usize % n + i) % n]).find(|id| fits(*id))
            }
        };
        if r.is_some() {
            self.hits.set(self.hits.get() + 1);
        }
        r.map(LeafNodeId::from_usize)
    }
}

// ---------------------------------------------------------------- the store's contents after each operation
type SpyTree<K, V, A> = BPlusTree<Spy<K, V, A>>;

struct Seen {
    nodes: u64,
    hash: u64,
}
fn kids<K: KeyT, A: Clone>(n: &InnerNode<K, A>, what: &str) -> Vec<NodeId> {
    let mut v = Vec::with_capacity(n.len() + 1);
    check!(n.len() > 0, "{what}: an inner node without a key is stored");
    for i in 0..=n.len() {
        let (got, id) = if i == 0 {
            let o = n.key(0).o();
            check!(o > 0, "{what}: the lowest possible key is a separator");
            let k = K::mk(o - 1);
            n.locate_child::<K>(&k)
        } else {
            n.locate_child::<K>(n.key(i - 1))
        };
        check!(got == i, "{what}: separators out of order: child {i} is found at {got}");
        v.push(id);
    }
    v
}

/// `bulk`: a short leaf may be left from bulk loading
fn audit<K, V, A>(ctx: &mut Ctx, t: &SpyTree<K, V, A>, bulk: bool, what: &str) -> Seen
where
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    let s = t.node_store();
    let (nl, ni) = (LeafNode::<K, V>::max_capacity() as usize, InnerNode::<K, A>::max_capacity() as usize);
    for (id, st) in &s.leaves.at {
        check!(matches!(st, St::Live(_)), "{what}: leaf {id:#x} is still reserved and was never assigned");
    }
    let mut children: HashMap<usize, Vec<NodeId>> = HashMap::new();
    let mut il: HashSet<usize> = HashSet::new();
    let mut ll: HashSet<usize> = HashSet::new();
    for id in &s.inners.list {
        let v = kids::<K, A>(s.inners.need(*id, "stores"), what);
        for c in &v {
            let new = match c {
                NodeId::Inner(i) => {
                    check!(
                        s.inners.live(i.as_usize()).is_some(),
                        "{what}: an inner node refers to inner node {:#x}, which is not stored",
                        i.as_usize()
                    );
                    il.insert(i.as_usize())
                }
                NodeId::Leaf(l) => {
                    check!(
                        s.leaves.live(l.as_usize()).is_some(),
                        "{what}: an inner node refers to leaf {:#x}, which is not stored",
                        l.as_usize()
                    );
                    ll.insert(l.as_usize())
                }
            };
            check!(new, "{what}: {c:?} is a child twice");
        }
        children.insert(*id, v);
    }
    let total = s.inners.list.len() + s.leaves.list.len();
    let roots = total - il.len() - ll.len();
    check!(
        roots == 1,
        "{what}: {roots} of the {total} stored nodes are nobody's child ({} entries): {} too many",
        t.len(),
        roots as i64 - 1
    );
    let root = match s.inners.list.iter().find(|i| !il.contains(i)) {
        Some(i) => NodeId::Inner(InnerNodeId::from_usize(*i)),
        None => NodeId::Leaf(LeafNodeId::from_usize(*s.leaves.list.iter().find(|l| !ll.contains(l)).unwrap())),
    };
    // depth first, left to right
    let mut todo: Vec<(NodeId, usize, Option<&K>, Option<&K>)> = vec![(root, 0, None, None)];
    let (mut order, mut entries, mut depth, mut short, mut seen, mut hash) = (Vec::new(), 0, None, 0, 0u64, 7u64);
    while let Some((id, d, lo, hi)) = todo.pop() {
        seen += 1;
        let keys: Vec<&K>;
        match id {
            NodeId::Inner(i) => {
                let n = s.inners.need(i.as_usize(), "stores");
                keys = (0..n.len()).map(|i| n.key(i)).collect();
                check!(n.len() <= ni, "{what}: an inner node holds {} keys of {ni}", n.len());
                check!(
                    id == root || n.len() >= ni / 4,
                    "{what}: an inner node below the root holds {} keys, less than a quarter of {ni}",
                    n.len()
                );
                let c = &children[&i.as_usize()];
                for x in (0..c.len()).rev() {
                    let l = if x == 0 { lo } else { Some(keys[x - 1]) };
                    let h = if x == keys.len() { hi } else { Some(keys[x]) };
                    todo.push((c[x], d + 1, l, h));
                }
                hash = mix(hash, (n.len() << 1) as u64);
            }
            NodeId::Leaf(l) => {
                let n = s.leaves.need(l.as_usize(), "stores");
                keys = n.keys().iter().collect();
                check!(n.len() <= nl, "{what}: a leaf holds {} entries of {nl}", n.len());
                check!(n.values().len() == n.len(), "{what}: a leaf shows {} values for {} keys", n.values().len(), n.len());
                if id != root && n.len() < nl / 4 {
                    short += 1;
                    check!(
                        bulk && short == 1 && n.len() > 0,
                        "{what}: a leaf holds {} entries, less than a quarter of {nl} ({short} such leaves)",
                        n.len()
                    );
                }
                check!(*depth.get_or_insert(d) == d, "{what}: leaves at depths {depth:?} and {d}");
                order.push(l);
                entries += n.len();
                hash = mix(hash, (n.len() << 1 | 1) as u64);
            }
        }
        for w in keys.windows(2) {
            check!(w[0] < w[1], "{what}: keys {:?} and {:?} stand side by side in a node", w[0], w[1]);
        }
        if let (Some(lo), Some(k)) = (lo, keys.first()) {
            check!(*k >= lo, "{what}: key {k:?} lies left of its separator {lo:?}");
        }
        if let (Some(hi), Some(k)) = (hi, keys.last()) {
            check!(*k < hi, "{what}: key {k:?} does not lie left of its separator {hi:?}");
        }
    }
    check!(seen as usize == total, "{what}: {seen} of {total} stored nodes hang below the root");
    for (i, l) in order.iter().enumerate() {
        let n = s.leaves.need(l.as_usize(), "stores");
        let (p, x) = (i.checked_sub(1).map(|i| order[i]), order.get(i + 1).copied());
        check!(n.prev() == p, "{what}: leaf {i} of {} links back to {:?} instead of {p:?}", order.len(), n.prev());
        check!(n.next() == x, "{what}: leaf {i} of {} links on to {:?} instead of {x:?}", order.len(), n.next());
    }
    check!(entries == t.len(), "{what}: the stored leaves hold {entries} entries, len is {}", t.len());
    ctx.add("stores_audited");
    ctx.st.add("nodes_audited", seen);
    Seen { nodes: seen, hash }
}

// ---------------------------------------------------------------- both trees at once
/// the tree on the monitoring store next to one on the library's own store
pub struct Pair<K: KeyT, V: ValT, A: Augmentation<K, V>> {
    a: SpyTree<K, V, A>,
    b: Tree<K, V, A>,
}
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, spy: T, vec: T) {
    check!(spy == vec, "{what} depends on the node store: {spy:?} on another store, {vec:?} on the library's own");
}
fn kv<K: KeyT, V: ValT>(x: &Option<(&K, &V)>) -> Option<(u64, u64)> {
    x.as_ref().map(|(k, v)| (k.o(), v.get()))
}
impl<K: KeyT, V: ValT, A: Augmentation<K, V>> Pair<K, V, A> {
    /// run one call on the spy and judge how many nodes it named
    fn metered<R>(&mut self, what: &str, per_level: u64, f: impl FnOnce(&mut SpyTree<K, V, A>) -> R) -> R {
        let (n, t0) = (self.a.len(), self.a.node_store().touched.get());
        let r = f(&mut self.a);
        let used = self.a.node_store().touched.get() - t0;
        let max = per_level * levels(n.max(self.a.len())) + 4;
        METER.with(|m| {
            let mut x = m.get();
            x.0 += 1;
            x.1 += used;
            x.2 = x.2.max(used * 100 / max);
            m.set(x);
        });
        check!(used <= max, "{what} with {n} entries names {used} nodes, more than {max}");
        r
    }
}
/// run one reading call on the spy and judge how many nodes it named
fn reads<'a, K: KeyT, V: ValT, A: Augmentation<K, V>, R>(t: &'a SpyTree<K, V, A>, what: &str, f: impl FnOnce(&'a SpyTree<K, V, A>) -> R) -> R {
    let t0 = t.node_store().touched.get();
    let r = f(t);
    let used = t.node_store().touched.get() - t0;
    let max = 3 * levels(t.len()) + 6;
    METER.with(|m| {
        let mut x = m.get();
        x.0 += 1;
        x.1 += used;
        x.2 = x.2.max(used * 100 / max);
        m.set(x);
    });
    check!(used <= max, "{what} with {} entries names {used} nodes, more than {max}", t.len());
    r
}
thread_local! {
    static METER: Cell<(u64, u64, u64)> = const { Cell::new((0, 0, 0)) };
}
/// levels of a tree all of whose nodes are a quarter full
fn levels(n: usize) -> u64 {
    let q = (crate::dict::capacity() / 4).max(1);
    let (mut l, mut x) = (2, n / q);
    while x > 0 {
        x /= q + 1;
        l += 1;
    }
    l
}

impl<K: KeyT, V: ValT, A: Augmentation<K, V>> Dict<K, V, A> for Pair<K, V, A> {
    const TREE: bool = true;
    fn create() -> Self {
        Pair { a: BPlusTree::new(Spy::default()), b: <Tree<K, V, A> as Dict<K, V, A>>::create() }
    }
    fn bulk(items: Vec<(K, V)>) -> Self {
        let copy = items.iter().map(|(k, v)| (k.clone(), V::mk(v.get()))).collect();
        let a: SpyTree<K, V, A> = BPlusTree::bulk_load(items);
        let (used, s) = (a.node_store().touched.get(), a.node_store());
        let nodes = (s.leaves.list.len() + s.inners.list.len()) as u64;
        check!(used <= 8 * nodes + 8, "bulk loading into {nodes} nodes names {used} nodes");
        Pair { a, b: BPlusTree::bulk_load(copy) }
    }
    fn insert(&mut self, k: K, v: V) -> Option<V> {
        let (k2, v2) = (k.clone(), V::mk(v.get()));
        let r = self.metered("insert", 12, |t| t.insert(k, v));
        let s = self.b.insert(k2, v2);
        eq("insert", r.as_ref().map(|v| v.get()), s.map(|v| v.get()));
        r
    }
    fn remove<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        let r = self.metered("remove", 14, |t| t.remove(k));
        let s = self.b.remove(k);
        eq("remove", r.as_ref().map(|v| v.get()), s.map(|v| v.get()));
        r
    }
    fn get<Q: ?Sized + Ord>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        let r = reads(&self.a, "get", |t| t.get(k));
        eq("get", r.map(|v| v.get()), self.b.get(k).map(|v| v.get()));
        r
    }
    fn get_mut<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        let _ = self.metered("get", 3, |t| t.get(k).is_some());
        let _ = self.metered("get_mut", 3, |t| t.get_mut(k).is_some());
        let r = self.a.get_mut(k);
        let s = self.b.get_mut(k);
        eq("get_mut", r.as_ref().map(|v| v.get()), s.as_ref().map(|v| v.get()));
        let v = V::norm(mix(r.as_ref().map_or(0, |v| v.get()), 77) >> 20);
        if let Some(s) = s {
            *s = V::mk(v);
        }
        if let Some(r) = r {
            *r = V::mk(v);
            return Some(r);
        }
        None
    }
    fn len(&self) -> usize {
        eq("len", self.a.len(), self.b.len());
        self.a.len()
    }
    fn is_empty(&self) -> bool {
        eq("is_empty", self.a.is_empty(), self.b.is_empty());
        self.a.is_empty()
    }
    fn iter<'a>(&'a self) -> impl DoubleEndedIterator<Item = (&'a K, &'a V)> + ExactSizeIterator
    where
        K: 'a,
        V: 'a,
    {
        self.a.iter()
    }
    fn root_agg(&self) -> &A {
        self.a.root_augmentation()
    }
    fn visit<VI: DescendVisit<K, V, A>>(&self, v: VI) -> Option<VI::Result> {
        self.a.descend_visit(v)
    }
    fn find<Q>(&self, q: Q) -> Option<(&K, &V)>
    where
        A: SearchAugmentation<K, V, Query = Q>,
    {
        self.a.get_by_augmentation(q)
    }
    fn find_mut<Q>(&mut self, q: Q) -> Option<&mut V>
    where
        A: SearchAugmentation<K, V, Query = Q>,
    {
        self.a.get_mut_by_augmentation(q)
    }
    fn take<Q>(&mut self, q: Q) -> Option<(K, V)>
    where
        A: SearchAugmentation<K, V, Query = Q>,
    {
        self.a.remove_by_augmentation(q)
    }
    fn rank<R>(&self, k: &K) -> Result<R, R>
    where
        A: RankAugmentation<K, V, Rank = R>,
    {
        self.a.rank_by_augmentation(k)
    }
    fn first(&self) -> Option<Option<(&K, &V)>> {
        let r = reads(&self.a, "first", |t| t.first());
        eq("first", kv(&r), kv(&self.b.first()));
        Some(r)
    }
    fn last(&self) -> Option<Option<(&K, &V)>> {
        let r = reads(&self.a, "last", |t| t.last());
        eq("last", kv(&r), kv(&self.b.last()));
        Some(r)
    }
    fn clear(&mut self) -> bool {
        self.a.clear();
        self.b.clear();
        true
    }
}
fn stat<S: NodeStore>(t: &BPlusTree<S>) -> [u64; 8] {
    let s = t.statistic();
    [
        s.rotate_right_inner,
        s.rotate_left_inner,
        s.merge_with_left_inner,
        s.merge_with_right_inner,
        s.rotate_right_leaf,
        s.rotate_left_leaf,
        s.merge_with_left_leaf,
        s.merge_with_right_leaf,
    ]
}
fn same<K, V, A>(ctx: &mut Ctx, h: &mut Hist<Pair<K, V, A>, K, V, A>, bulk: bool, what: &str)
where
    K: KeyT,
    V: ValT,
    A: AggT<K, V>,
{
    ctx.add("whole_comparisons");
    let p = &h.d;
    let s = p.a.node_store();
    let t0 = s.touched.get();
    let front: Vec<(u64, u64)> = p.a.iter().map(|(k, v)| (k.o(), v.get())).collect();
    let used = s.touched.get() - t0;
    let max = (s.leaves.list.len() as u64) * 2 + 2 * levels(p.a.len()) + 4;
    check!(used <= max, "{what}: one pass over {} entries in {} leaves names {used} nodes", p.a.len(), s.leaves.list.len());
    let mine: Vec<(u64, u64)> = p.b.iter().map(|(k, v)| (k.o(), v.get())).collect();
    eq("iteration", front.len(), mine.len());
    if let Some(i) = (0..front.len()).find(|i| front[*i] != mine[*i]) {
        eq("an iterated entry", front[i], mine[i]);
    }
    if !front.is_empty() {
        let two = reads(&p.a, "an iterator's first items", |t| {
            let mut i = t.iter();
            let b = i.next_back().map(|(k, _)| k.o());
            (i.next().map(|(k, _)| k.o()), b)
        });
        let ends = (Some(mine[0].0).filter(|_| mine.len() > 1), Some(mine[mine.len() - 1].0));
        eq("both ends of an iterator", two, ends);
    }
    let back: Vec<(u64, u64)> = p.a.iter().rev().map(|(k, v)| (k.o(), v.get())).collect();
    if back.iter().rev().ne(mine.iter()) {
        crate::fail!("{what}: backward iteration on another store yields other entries than forward iteration on the library's own");
    }
    eq("the whole aggregate", p.a.root_augmentation().sum(), p.b.root_augmentation().sum());
    eq("the statistic", stat(&p.a), stat(&p.b));
    let x = audit(ctx, &h.d.a, bulk, what);
    ctx.st.shape(x.hash);
    ctx.st.max("most_nodes", x.nodes);
    ctx.note(x.hash);
    if h.m.len() < 400 || ctx.rng.chance(1, 20) {
        eq("the structure shown to visitors", shape(&h.d).hash(), shape(&h.d.b).hash());
    }
}
struct Held<K: KeyT> {
    a: Cursor<K>,
    b: Cursor<K>,
}
fn probe<K, V, A>(ctx: &mut Ctx, p: &Pair<K, V, A>, c: &Held<K>) -> Option<Held<K>>
where
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    ctx.add("cursor_probes");
    ev("cursor", c.a.key().o(), 0);
    eq("a cursor's key", c.a.key().o(), c.b.key().o());
    let w = ctx.rng.below(8);
    if w & 1 != 0 {
        eq("a cursor's value", reads(&p.a, "Cursor::value", |t| c.a.value(t)).map(|v| v.get()), c.b.value(&p.b).map(|v| v.get()));
        eq("a cursor's existence", reads(&p.a, "Cursor::exists", |t| c.a.exists(t)), c.b.exists(&p.b));
    }
    let mut r = None;
    if w & 2 != 0 {
        let (x, y) = (reads(&p.a, "Cursor::next", |t| c.a.next_with_value(t)), c.b.next_with_value(&p.b));
        let g = |x: &Option<(Cursor<K>, &V)>| x.as_ref().map(|x| (x.0.key().o(), x.1.get()));
        eq("a cursor's next", g(&x), g(&y));
        r = x.zip(y).map(|(x, y)| Held { a: x.0, b: y.0 });
    }
    if w & 4 != 0 {
        let (x, y) = (reads(&p.a, "Cursor::prev", |t| c.a.prev_with_value(t)), c.b.prev_with_value(&p.b));
        let g = |x: &Option<(Cursor<K>, &V)>| x.as_ref().map(|x| (x.0.key().o(), x.1.get()));
        eq("a cursor's prev", g(&x), g(&y));
        r = x.zip(y).map(|(x, y)| Held { a: x.0, b: y.0 });
    }
    r
}

fn body<K, V, A>(ctx: &mut Ctx)
where
    K: KeyT,
    V: ValT + Clone,
    A: AggT<K, V> + SearchAugmentation<K, V, Query = Find>,
{
    let pol = Policy {
        ids: ctx.rng.below(ID_WAYS as u64) as u8,
        cache: ctx.rng.below(3) as u8,
        seed: ctx.rng.next(),
    };
    POLICY.with(|p| p.set(pol));
    METER.with(|m| m.set((0, 0, 0)));
    const POL: [&str; 8] = [
        "ids_dense",
        "ids_never_reused",
        "ids_far_apart",
        "ids_descending",
        "ids_first_freed",
        "ids_any_freed",
        "ids_permuted",
        "ids_small_any",
    ];
    const CACHE: [&str; 3] = ["cache_none", "cache_last", "cache_any"];
    ctx.add(POL[pol.ids as usize]);
    ctx.add(CACHE[pol.cache as usize]);
    let target = ctx.size().min(if ctx.n <= 16 { 4000 } else { 12000 });
    let steps = ctx.steps(300 + 3 * target / 2);
    let mut bulk = false;
    let mut h: Hist<Pair<K, V, A>, K, V, A> = Hist::new(ctx, target);
    h.foreign = true;
    same(ctx, &mut h, bulk, "new");
    if ctx.rng.chance(1, 3) {
        let k = ctx.rng.below(target as u64 + 1) as usize;
        let p = pattern(&mut ctx.rng, k, K::MAXO);
        let mut e: Vec<(u64, Pay)> = Vec::new();
        let mut items = Vec::new();
        for o in p {
            if ctx.rng.chance(1, 12) {
                items.push((K::mk(o), V::mk(V::norm(1))));
            }
            items.push((K::mk(o), V::mk(V::norm(o * 3))));
            e.push((o, (V::norm(o * 3), 0)));
        }
        h.m.e = e;
        h.d = Pair::bulk(items);
        bulk = true;
        ctx.add("bulk_built");
        same(ctx, &mut h, bulk, "bulk load");
    }
    let mut cur: Vec<Held<K>> = Vec::new();
    let mut hits = 0;
    for _ in 0..steps {
        if ctx.late() {
            break;
        }
        let mut what = "insertion";
        let mut all = false;
        match ctx.rng.below(40) {
            0..=3 => {
                what = "lookup";
                let o = h.probe_key(ctx);
                let r = h.get_ok(ctx, o);
                other(r);
                let k = K::mk(o);
                ev("get_mut", o, 0);
                let got = h.d.get_mut::<K>(&k).map(|v| v.get());
                if let (Some(v), Some(p)) = (got, h.m.get_mut(o)) {
                    p.0 = v;
                    ctx.add("in_place_updates");
                }
                let r = h.ends_ok(ctx);
                other(r);
                let _ = h.d.metered("first", 3, |t| t.first().is_some());
                let _ = h.d.metered("last", 3, |t| t.last().is_some());
            }
            4..=5 => {
                what = "search";
                let n = h.m.len() as u64;
                let q = match ctx.rng.below(4) {
                    0 => Find::Nth(ctx.rng.below(n + 2)),
                    1 => Find::NthBack(ctx.rng.below(n + 2)),
                    2 => Find::Best,
                    _ => Find::ByKey(h.probe_key(ctx)),
                };
                ctx.add("searches");
                ev("search", n, 0);
                eq("a search", kv(&h.d.a.get_by_augmentation(q)), kv(&h.d.b.get_by_augmentation(q)));
                let _ = h.d.metered("search", 3, |t| t.get_by_augmentation(q).is_some());
                match ctx.rng.below(4) {
                    0 => {
                        what = "removal by search";
                        let x = h.d.metered("removal by search", 14, |t| t.remove_by_augmentation(q));
                        let y = h.d.b.remove_by_augmentation(q);
                        let g = |x: &Option<(K, V)>| x.as_ref().map(|x| (x.0.o(), x.1.get()));
                        eq("a removal by search", g(&x), g(&y));
                        if let Some((k, _)) = x {
                            ctx.add("removals_by_search");
                            h.m.remove(k.o());
                        }
                    }
                    1 => {
                        what = "update by search";
                        let x = h.d.a.get_mut_by_augmentation(q);
                        let y = h.d.b.get_mut_by_augmentation(q);
                        eq("a search for update", x.as_ref().map(|v| v.get()), y.as_ref().map(|v| v.get()));
                    }
                    _ => {}
                }
            }
            6..=8 => {
                what = "cursor";
                if cur.len() < 12 && !h.m.is_empty() {
                    let o = h.probe_key(ctx);
                    let k = K::mk(o);
                    let (x, y) = match ctx.rng.below(4) {
                        0 => (reads(&h.d.a, "Cursor::first", |t| Cursor::first(t)).map(|c| c.0), Cursor::first(&h.d.b).map(|c| c.0)),
                        1 => (reads(&h.d.a, "Cursor::last", |t| Cursor::last(t)).map(|c| c.0), Cursor::last(&h.d.b).map(|c| c.0)),
                        _ => (h.d.a.get_cursor(&k).map(|c| c.0), h.d.b.get_cursor(&k).map(|c| c.0)),
                    };
                    eq("getting a cursor", x.is_some(), y.is_some());
                    cur.extend(x.zip(y).map(|(a, b)| Held { a, b }));
                }
                for i in 0..cur.len() {
                    if ctx.rng.chance(1, 3) {
                        if let Some(c) = probe(ctx, &h.d, &cur[i]) {
                            cur[i] = c;
                        }
                    }
                }
                if cur.len() > 8 && ctx.rng.chance(1, 2) {
                    let i = ctx.rng.idx(cur.len());
                    cur.swap_remove(i);
                }
                if let Some(i) = cur.len().checked_sub(1) {
                    let p = &mut h.d;
                    let c = &cur[i].a;
                    p.metered("a cursor's step", 3, |t| c.next(t).is_some());
                    p.metered("a cursor's step", 3, |t| c.prev(t).is_some());
                }
            }
            9 if ctx.rng.chance(1, 60) => {
                what = "clear";
                h.d.clear();
                h.m = Model::new();
                bulk = false;
                all = true;
                ctx.add("clears");
            }
            10 if ctx.rng.chance(1, 8) => {
                what = "clone";
                all = true;
                ctx.add("clones");
                let c = Pair { a: h.d.a.clone(), b: h.d.b.clone() };
                let old = if ctx.rng.chance(1, 2) { c } else { std::mem::replace(&mut h.d, c) };
                // the one left behind is modified or consumed
                let Pair { mut a, b } = old;
                if ctx.rng.chance(1, 2) {
                    for i in 0..ctx.rng.below(60) {
                        if h.m.is_empty() {
                            break;
                        }
                        let k = K::mk(h.m.at(ctx.rng.idx(h.m.len())));
                        if i % 3 == 0 {
                            a.insert(k, V::mk(V::norm(i)));
                        } else {
                            a.remove::<K>(&k);
                        }
                    }
                    audit(ctx, &a, bulk, "clone");
                } else {
                    let n = a.len();
                    let half = ctx.rng.below(2 * n as u64 + 1) as usize;
                    let mut x = a.into_iter();
                    let mut y = b.into_iter();
                    ctx.add("consumed");
                    for _ in 0..half {
                        let g = |x: Option<(K, V)>| x.map(|x| (x.0.o(), x.1.get()));
                        if ctx.rng.chance(1, 2) {
                            eq("consumption", g(x.next()), g(y.next()));
                        } else {
                            eq("consumption from the back", g(x.next_back()), g(y.next_back()));
                        }
                        eq("the remaining length", x.len(), y.len());
                    }
                }
            }
            11 => {
                let o = h.probe_key(ctx);
                what = "removal";
                let r = h.del(ctx, o);
                other(r);
            }
            _ => {
                let (a, r) = h.step(ctx);
                if let Act::Del(_) = a {
                    what = "removal";
                }
                other(r);
            }
        }
        let n = h.m.len();
        if all || n < 40 || ctx.rng.chance(1, (n as u64 / 12).max(3)) {
            same(ctx, &mut h, bulk, what);
        }
        hits = hits.max(h.d.a.node_store().hits.get());
    }
    same(ctx, &mut h, bulk, "end");
    if ctx.rng.chance(1, 3) {
        let mode = ctx.rng.below(3);
        while !h.m.is_empty() && !ctx.late() {
            let n = h.m.len();
            let i = match mode {
                0 => 0,
                1 => n - 1,
                _ => ctx.rng.idx(n),
            };
            let o = h.m.at(i);
            let r = h.del(ctx, o);
            other(r);
            if n < 60 || ctx.rng.chance(1, n as u64 / 10) {
                same(ctx, &mut h, bulk, "draining");
            }
        }
        same(ctx, &mut h, bulk, "drained");
        ctx.add("drained");
    }
    let m = METER.with(|m| m.get());
    ctx.st.add("operations_metered", m.0);
    ctx.st.add("nodes_named", m.1);
    ctx.st.max("percent_of_access_bound", m.2);
    ctx.st.add("cache_hits", hits);
    h.describe(ctx, "a tree on a monitoring store", "BPlusTree");
    let d = format!(" ({}, {})", POL[pol.ids as usize], CACHE[pol.cache as usize]);
    ctx.desc.push_str(&d);
}

// ---------------------------------------------------------------- the library's own store against the contract
type Vs = NodeStoreVec<u64, u64, Fold>;
#[derive(Clone, Default)]
struct Mirror {
    /// None: reserved
    leaves: Vec<(LeafNodeId, Option<Vec<(u64, u64)>>)>,
    inners: Vec<(InnerNodeId, Vec<u64>)>,
    /// taken inner nodes that may be put back
    out: Vec<(InnerNodeId, Vec<u64>)>,
}
fn leaf_of(e: &[(u64, u64)]) -> Box<LeafNode<u64, u64>> {
    let mut l = LeafNode::new();
    l.set_data(e.iter().copied());
    l
}
fn inner_of(k: &[u64]) -> Box<InnerNode<u64, Fold>> {
    InnerNode::new_from_iter(
        k.iter().copied(),
        (0..=k.len()).map(|i| NodeId::Leaf(LeafNodeId::from_usize(k[0] as usize + i))),
        (0..=k.len()).map(|_| Fold::default()),
    )
}
fn leaf_is(l: &LeafNode<u64, u64>, e: &[(u64, u64)], what: &str) {
    let g: Vec<(u64, u64)> = l.keys().iter().copied().zip(l.values().iter().copied()).collect();
    check!(g == e, "the library's store: {what} gives a leaf with {g:?} instead of {e:?}");
}
fn inner_is(n: &InnerNode<u64, Fold>, k: &[u64], what: &str) {
    let g: Vec<u64> = (0..n.len()).map(|i| *n.key(i)).collect();
    check!(g == k, "the library's store: {what} gives an inner node with {g:?} instead of {k:?}");
    for (i, s) in k.iter().enumerate() {
        let w = (i + 1, NodeId::Leaf(LeafNodeId::from_usize(k[0] as usize + i + 1)));
        let g = n.locate_child(s);
        check!(g == w, "the library's store: {what} gives an inner node with child {g:?} instead of {w:?}");
    }
}
impl Mirror {
    fn all(&self, ctx: &mut Ctx, s: &Vs, what: &str) {
        ctx.add("built_in_store_audits");
        for (id, e) in &self.leaves {
            match e {
                Some(e) => {
                    leaf_is(s.get_leaf(*id), e, what);
                    match s.try_get_leaf(*id) {
                        Some(l) => leaf_is(l, e, what),
                        None => crate::fail!("the library's store: {what}: stored leaf {id:?} is reported absent"),
                    }
                }
                None => check!(
                    s.try_get_leaf(*id).is_none(),
                    "the library's store: {what}: leaf {id:?} is present before it was assigned"
                ),
            }
        }
        for (id, k) in &self.inners {
            inner_is(s.get_inner(*id), k, what);
            check!(s.try_get_inner(*id).is_some(), "the library's store: {what}: stored inner node {id:?} is reported absent");
        }
        for w in [usize::MAX, usize::MAX - 1, 1 << 40, 100_000] {
            check!(
                s.try_get_leaf(LeafNodeId::from_usize(w)).is_none() && s.try_get_inner(InnerNodeId::from_usize(w)).is_none(),
                "the library's store: {what}: a node is found under id {w:#x}, which was never issued"
            );
        }
    }
    fn fresh_leaf(&self, id: LeafNodeId, what: &str) {
        check!(
            !self.leaves.iter().any(|x| x.0 == id),
            "the library's store: {what} hands out {id:?}, which is in use"
        );
    }
    fn fresh_inner(&mut self, id: InnerNodeId) {
        check!(
            !self.inners.iter().any(|x| x.0 == id),
            "the library's store: add_inner hands out {id:?}, which is in use"
        );
        self.out.retain(|x| x.0 != id);
    }
}
fn built_in(ctx: &mut Ctx) {
    let n = ctx.n;
    eq("the capacity of a leaf", Vs::leaf_n(), LeafNode::<u64, u64>::max_capacity());
    eq("the capacity of an inner node", Vs::inner_n(), InnerNode::<u64, Fold>::max_capacity());
    let mut s = match ctx.rng.below(3) {
        0 => Vs::new(),
        1 => Vs::default(),
        _ => Vs::with_capacity(ctx.rng.below(40) as usize),
    };
    let mut m = Mirror::default();
    let size = ctx.rng.range(1, 60) as usize;
    let steps = ctx.steps(600);
    let mut x = 1u64;
    let (mut peak, mut reused) = (0, 0);
    let mut gone: Vec<LeafNodeId> = Vec::new();
    for _ in 0..steps {
        if ctx.late() {
            break;
        }
        ctx.add("store_calls");
        x += 1;
        let more = m.leaves.len() < size && ctx.rng.chance(2, 3);
        let e: Vec<(u64, u64)> = (0..ctx.rng.range(1, n as u64)).map(|i| (x * 1000 + i, x + i)).collect();
        let k: Vec<u64> = (0..ctx.rng.range(1, n as u64 - 1)).map(|i| x * 1000 + 5 * i).collect();
        match ctx.rng.below(12) {
            0 | 1 if more => {
                ev("new_empty_leaf", 0, 0);
                let (id, l) = s.new_empty_leaf();
                check!(l.is_empty(), "the library's store: a new leaf holds {} entries", l.len());
                check!(l.prev().is_none() && l.next().is_none(), "the library's store: a new leaf is linked");
                l.set_data(e.iter().copied());
                m.fresh_leaf(id, "new_empty_leaf");
                reused += gone.contains(&id) as u64;
                m.leaves.push((id, Some(e)));
            }
            2 if more => {
                ev("reserve_leaf", 0, 0);
                let id = s.reserve_leaf();
                m.fresh_leaf(id, "reserve_leaf");
                reused += gone.contains(&id) as u64;
                m.leaves.push((id, None));
            }
            3 | 4 => {
                if let Some(i) = m.leaves.iter().position(|x| x.1.is_none()) {
                    ev("assign_leaf", 0, 0);
                    s.assign_leaf(m.leaves[i].0, leaf_of(&e));
                    m.leaves[i].1 = Some(e);
                }
            }
            5 | 6 if !m.leaves.is_empty() && !more => {
                let i = ctx.rng.idx(m.leaves.len());
                if let (id, Some(e)) = m.leaves[i].clone() {
                    ev("take_leaf", 0, 0);
                    if ctx.rng.chance(1, 2) {
                        s.cache_leaf(id);
                    }
                    let l = s.take_leaf(id);
                    leaf_is(&l, &e, "take_leaf");
                    check!(s.try_get_leaf(id).is_none(), "the library's store: a taken leaf is still present");
                    let c = s.try_cache(&e[0].0);
                    check!(c != Some(id), "the library's store: a taken leaf is remembered");
                    m.leaves.swap_remove(i);
                    gone.push(id);
                }
            }
            7 if m.inners.len() < size => {
                ev("add_inner", 0, 0);
                let id = s.add_inner(inner_of(&k));
                m.fresh_inner(id);
                m.inners.push((id, k));
            }
            8 if !m.inners.is_empty() => {
                ev("take_inner", 0, 0);
                let i = ctx.rng.idx(m.inners.len());
                let (id, k) = m.inners.swap_remove(i);
                let b = s.take_inner(id);
                inner_is(&b, &k, "take_inner");
                check!(s.try_get_inner(id).is_none(), "the library's store: a taken inner node is still present");
                m.out.push((id, k));
            }
            9 if !m.out.is_empty() => {
                ev("put_back_inner", 0, 0);
                let i = ctx.rng.idx(m.out.len());
                let (id, _) = m.out.swap_remove(i);
                s.put_back_inner(id, inner_of(&k));
                m.inners.push((id, k));
                ctx.add("put_back");
            }
            10 => {
                // modify in place
                if let Some((id, Some(w))) = m.leaves.last_mut() {
                    ev("get_mut_leaf", 0, 0);
                    let l = s.get_mut_leaf(*id);
                    *l.value_at_mut(0) = x;
                    w[0].1 = x;
                }
                if let Some((id, k)) = m.inners.last_mut() {
                    if k.len() + 1 < n {
                        let top = k[k.len() - 1] + 1;
                        let c = NodeId::Leaf(LeafNodeId::from_usize(k[0] as usize + k.len() + 1));
                        if x % 2 == 0 {
                            s.get_mut_inner(*id).push(top, c, Fold::default());
                        } else {
                            unsafe { (*s.get_mut_inner_ptr(*id)).push(top, c, Fold::default()) };
                        }
                        k.push(top);
                    }
                }
            }
            _ => {
                if !m.leaves.is_empty() {
                    let i = ctx.rng.idx(m.leaves.len());
                    if let (id, Some(e)) = &m.leaves[i] {
                        if ctx.rng.chance(1, 2) {
                            s.cache_leaf(*id);
                        }
                        if let Some(c) = s.try_cache(&e[0].0) {
                            ctx.add("remembered_leaves");
                            check!(
                                m.leaves.iter().any(|x| x.0 == c && x.1.is_some()),
                                "the library's store remembers leaf {c:?}, which is not stored"
                            );
                            check!(s.get_leaf(c).in_range(&e[0].0), "the library's store names a leaf that does not cover the key");
                        }
                    }
                }
                if ctx.rng.chance(1, 20) {
                    // a clone, one of the two goes its own way
                    ctx.add("store_clones");
                    let mut c = s.clone();
                    m.all(ctx, &c, "clone");
                    let mut w = m.clone();
                    if let Some(i) = w.leaves.iter().position(|x| x.1.is_some()) {
                        let (id, _) = w.leaves.swap_remove(i);
                        drop(c.take_leaf(id));
                    }
                    let (id, l) = c.new_empty_leaf();
                    l.set_data(e.iter().copied());
                    w.fresh_leaf(id, "new_empty_leaf of a clone");
                    w.leaves.push((id, Some(e)));
                    if let Some((id, k)) = w.inners.pop() {
                        inner_is(&c.take_inner(id), &k, "take_inner of a clone");
                        w.out.push((id, k));
                    }
                    let id = c.add_inner(inner_of(&k));
                    w.fresh_inner(id);
                    w.inners.push((id, k));
                    w.all(ctx, &c, "a modified clone");
                    m.all(ctx, &s, "the original after its clone was modified");
                    if ctx.rng.chance(1, 2) {
                        s = c;
                        m = w;
                    }
                }
            }
        }
        peak = peak.max(m.leaves.len() + m.inners.len());
        if ctx.rng.chance(1, 8) {
            m.all(ctx, &s, "history");
        }
    }
    m.all(ctx, &s, "end");
    ctx.st.add("ids_reused", reused);
    ctx.nontrivial = peak > 2;
    ctx.note(mix(peak as u64, x));
    ctx.note(m.leaves.iter().fold(x, |h, l| mix(h, l.0.as_usize() as u64)));
    ctx.desc = format!("the library's own store called directly: up to {peak} nodes, {} left", m.leaves.len() + m.inners.len());
}

pub fn episode(ctx: &mut Ctx) {
    one_of!(ctx,
        6 => body::<u64, u64, Fold>(ctx),
        2 => body::<Tk, Tv, HeapFold>(ctx),
        2 => body::<String, u64, HeapFold>(ctx),
        1 => body::<u8, u64, Fold>(ctx),
        1 => body::<(), u64, Fold>(ctx),
        2 => built_in(ctx),
    );
}
