//! One view over map and tree, and the structure walker (through the public visitor).
use crate::core::{check_shape_limit, mix, way};
use crate::types::{AggT, KeyT, ValT};
use std::borrow::Borrow;
use std::marker::PhantomData;
use sweep_bptree::augment::{Augmentation, RankAugmentation, SearchAugmentation};
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::{BPlusTree, BPlusTreeMap, Key, NodeStore, NodeStoreVec};

pub type Store<K, V, A> = NodeStoreVec<K, V, A>;
pub type Tree<K, V, A = ()> = BPlusTree<NodeStoreVec<K, V, A>>;
pub type Map<K, V, A = ()> = BPlusTreeMap<K, V, A>;

/// node capacity of the build under test
pub fn capacity() -> usize {
    <NodeStoreVec<u64, u64> as NodeStore>::leaf_n() as usize
}

/// a source of items with an unusual size hint, which may go on after its end
pub struct Odd<T> {
    it: std::vec::IntoIter<T>,
    hint: u64,
    beyond: Option<T>,
    ended: bool,
}
impl<T> Odd<T> {
    /// hints 0 to 4 hold, 5 and up do not
    pub const HINTS: u64 = 8;
    pub fn new(items: Vec<T>, hint: u64, beyond: Option<T>) -> Self {
        Odd { it: items.into_iter(), hint, beyond, ended: false }
    }
}
impl<T> Iterator for Odd<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if let Some(x) = self.it.next() {
            return Some(x);
        }
        if self.ended {
            return self.beyond.take();
        }
        self.ended = true;
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, None),
            3 => (0, Some(usize::MAX)),
            4 => (n, Some(2 * n + 7)),
            5 => (0, Some(0)),
            6 => (n / 3, Some(n / 2)),
            _ => (n + 9, Some(n + 9)),
        }
    }
}

pub trait Dict<K: Key, V, A: Augmentation<K, V>>: Sized {
    const TREE: bool;
    const VISIT: bool = true;
    fn create() -> Self;
    /// tree: input must be sorted (duplicates allowed)
    fn bulk(items: Vec<(K, V)>) -> Self;
    fn from_odd(items: Odd<(K, V)>) -> Self
    where
        Self: Sized,
    {
        Self::bulk(items.collect())
    }
    fn insert(&mut self, k: K, v: V) -> Option<V>;
    fn remove<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>;
    fn get<Q: ?Sized + Ord>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>;
    fn get_mut<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn iter<'a>(&'a self) -> impl DoubleEndedIterator<Item = (&'a K, &'a V)> + ExactSizeIterator
    where
        K: 'a,
        V: 'a;
    fn root_agg(&self) -> &A;
    fn visit<VI: DescendVisit<K, V, A>>(&self, v: VI) -> Option<VI::Result>;
    fn find<Q>(&self, q: Q) -> Option<(&K, &V)>
    where
        A: SearchAugmentation<K, V, Query = Q>;
    fn find_mut<Q>(&mut self, q: Q) -> Option<&mut V>
    where
        A: SearchAugmentation<K, V, Query = Q>;
    fn take<Q>(&mut self, q: Q) -> Option<(K, V)>
    where
        A: SearchAugmentation<K, V, Query = Q>;
    fn rank<R>(&self, k: &K) -> Result<R, R>
    where
        A: RankAugmentation<K, V, Rank = R>;
    /// None: not offered by this collection
    fn first(&self) -> Option<Option<(&K, &V)>>;
    fn last(&self) -> Option<Option<(&K, &V)>>;
    fn clear(&mut self) -> bool;
}

impl<K: Key, V, A: Augmentation<K, V>> Dict<K, V, A> for Tree<K, V, A> {
    const TREE: bool = true;
    fn create() -> Self {
        BPlusTree::new(match way(6) {
            0..=2 => NodeStoreVec::new(),
            3 => NodeStoreVec::default(),
            x => NodeStoreVec::with_capacity((x as usize - 4) * 23),
        })
    }
    fn bulk(items: Vec<(K, V)>) -> Self {
        BPlusTree::bulk_load(items)
    }
    fn insert(&mut self, k: K, v: V) -> Option<V> {
        BPlusTree::insert(self, k, v)
    }
    fn remove<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        BPlusTree::remove(self, k)
    }
    fn get<Q: ?Sized + Ord>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        BPlusTree::get(self, k)
    }
    fn get_mut<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        BPlusTree::get_mut(self, k)
    }
    fn len(&self) -> usize {
        BPlusTree::len(self)
    }
    fn is_empty(&self) -> bool {
        BPlusTree::is_empty(self)
    }
    fn iter<'a>(&'a self) -> impl DoubleEndedIterator<Item = (&'a K, &'a V)> + ExactSizeIterator
    where
        K: 'a,
        V: 'a,
    {
        BPlusTree::iter(self)
    }
    fn root_agg(&self) -> &A {
        self.root_augmentation()
    }
    fn visit<VI: DescendVisit<K, V, A>>(&self, v: VI) -> Option<VI::Result> {
        self.descend_visit(v)
    }
    fn find<Q>(&self, q: Q) -> Option<(&K, &V)>
    where
        A: SearchAugmentation<K, V, Query = Q>,
    {
        self.get_by_augmentation(q)
    }
    fn find_mut<Q>(&mut self, q: Q) -> Option<&mut V>
    where
        A: SearchAugmentation<K, V, Query = Q>,
    {
        self.get_mut_by_augmentation(q)
    }
    fn take<Q>(&mut self, q: Q) -> Option<(K, V)>
    where
        A: SearchAugmentation<K, V, Query = Q>,
    {
        self.remove_by_augmentation(q)
    }
    fn rank<R>(&self, k: &K) -> Result<R, R>
    where
        A: RankAugmentation<K, V, Rank = R>,
    {
        self.rank_by_augmentation(k)
    }
    fn first(&self) -> Option<Option<(&K, &V)>> {
        Some(BPlusTree::first(self))
    }
    fn last(&self) -> Option<Option<(&K, &V)>> {
        Some(BPlusTree::last(self))
    }
    fn clear(&mut self) -> bool {
        BPlusTree::clear(self);
        true
    }
}

impl<K: Key, V, A: Augmentation<K, V>> Dict<K, V, A> for Map<K, V, A> {
    const TREE: bool = false;
    fn create() -> Self {
        match way(2) {
            0 => BPlusTreeMap::new(),
            _ => BPlusTreeMap::default(),
        }
    }
    fn bulk(items: Vec<(K, V)>) -> Self {
        match way(4) {
            // sizes known, unknown, underestimated and loosely bounded
            3 => Self::from_odd(Odd::new(items, way(5), None)),
            0 => items.into_iter().collect(),
            1 => items.into_iter().filter(|_| true).collect(),
            _ => {
                let mut it = items.into_iter();
                std::iter::once(it.next()).flatten().chain(it.flat_map(Some)).collect()
            }
        }
    }
    fn from_odd(items: Odd<(K, V)>) -> Self {
        items.collect()
    }
    fn insert(&mut self, k: K, v: V) -> Option<V> {
        BPlusTreeMap::insert(self, k, v)
    }
    fn remove<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        BPlusTreeMap::remove(self, k)
    }
    fn get<Q: ?Sized + Ord>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        BPlusTreeMap::get(self, k)
    }
    fn get_mut<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        BPlusTreeMap::get_mut(self, k)
    }
    fn len(&self) -> usize {
        BPlusTreeMap::len(self)
    }
    fn is_empty(&self) -> bool {
        BPlusTreeMap::is_empty(self)
    }
    fn iter<'a>(&'a self) -> impl DoubleEndedIterator<Item = (&'a K, &'a V)> + ExactSizeIterator
    where
        K: 'a,
        V: 'a,
    {
        BPlusTreeMap::iter(self)
    }
    fn root_agg(&self) -> &A {
        self.root_augmentation()
    }
    fn visit<VI: DescendVisit<K, V, A>>(&self, v: VI) -> Option<VI::Result> {
        self.descend_visit(v)
    }
    fn find<Q>(&self, q: Q) -> Option<(&K, &V)>
    where
        A: SearchAugmentation<K, V, Query = Q>,
    {
        self.get_by_augmentation(q)
    }
    fn find_mut<Q>(&mut self, q: Q) -> Option<&mut V>
    where
        A: SearchAugmentation<K, V, Query = Q>,
    {
        self.get_mut_by_augmentation(q)
    }
    fn take<Q>(&mut self, q: Q) -> Option<(K, V)>
    where
        A: SearchAugmentation<K, V, Query = Q>,
    {
        self.remove_by_augmentation(q)
    }
    fn rank<R>(&self, k: &K) -> Result<R, R>
    where
        A: RankAugmentation<K, V, Rank = R>,
    {
        self.rank_by_augmentation(k)
    }
    fn first(&self) -> Option<Option<(&K, &V)>> {
        None
    }
    fn last(&self) -> Option<Option<(&K, &V)>> {
        None
    }
    fn clear(&mut self) -> bool {
        false
    }
}

/// A set, seen as a dictionary to `()`
pub type Set<K> = sweep_bptree::BPlusTreeSet<K>;
static UNIT: () = ();
impl<K: Key> Dict<K, (), ()> for Set<K> {
    const TREE: bool = false;
    const VISIT: bool = false;
    fn create() -> Self {
        match way(2) {
            0 => sweep_bptree::BPlusTreeSet::new(),
            _ => sweep_bptree::BPlusTreeSet::default(),
        }
    }
    fn bulk(items: Vec<(K, ())>) -> Self {
        match way(3) {
            2 => Self::from_odd(Odd::new(items, way(5), None)),
            0 => items.into_iter().map(|x| x.0).collect(),
            _ => items.into_iter().map(|x| x.0).filter(|_| true).collect(),
        }
    }
    fn from_odd(items: Odd<(K, ())>) -> Self {
        // what lies behind the end stays behind it
        struct Keys<K>(Odd<(K, ())>);
        impl<K> Iterator for Keys<K> {
            type Item = K;
            fn next(&mut self) -> Option<K> {
                self.0.next().map(|x| x.0)
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                self.0.size_hint()
            }
        }
        Keys(items).collect()
    }
    fn insert(&mut self, k: K, _: ()) -> Option<()> {
        if sweep_bptree::BPlusTreeSet::insert(self, k) {
            None
        } else {
            Some(())
        }
    }
    fn remove<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<()>
    where
        K: Borrow<Q>,
    {
        sweep_bptree::BPlusTreeSet::remove(self, k).then_some(())
    }
    fn get<Q: ?Sized + Ord>(&self, k: &Q) -> Option<&()>
    where
        K: Borrow<Q>,
    {
        self.contains(k).then_some(&UNIT)
    }
    fn get_mut<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<&mut ()>
    where
        K: Borrow<Q>,
    {
        self.contains(k).then(|| Box::leak(Box::new(())))
    }
    fn len(&self) -> usize {
        sweep_bptree::BPlusTreeSet::len(self)
    }
    fn is_empty(&self) -> bool {
        sweep_bptree::BPlusTreeSet::is_empty(self)
    }
    fn iter<'a>(&'a self) -> impl DoubleEndedIterator<Item = (&'a K, &'a ())> + ExactSizeIterator
    where
        K: 'a,
    {
        sweep_bptree::BPlusTreeSet::iter(self).map(|k| (k, &UNIT))
    }
    fn root_agg(&self) -> &() {
        &UNIT
    }
    fn visit<VI: DescendVisit<K, (), ()>>(&self, _: VI) -> Option<VI::Result> {
        None
    }
    fn find<Q>(&self, _: Q) -> Option<(&K, &())> {
        unreachable!()
    }
    fn find_mut<Q>(&mut self, _: Q) -> Option<&mut ()> {
        unreachable!()
    }
    fn take<Q>(&mut self, _: Q) -> Option<(K, ())> {
        unreachable!()
    }
    fn rank<R>(&self, _: &K) -> Result<R, R> {
        unreachable!()
    }
    fn first(&self) -> Option<Option<(&K, &())>> {
        Some(sweep_bptree::BPlusTreeSet::first(self).map(|k| (k, &UNIT)))
    }
    fn last(&self) -> Option<Option<(&K, &())>> {
        Some(sweep_bptree::BPlusTreeSet::last(self).map(|k| (k, &UNIT)))
    }
    fn clear(&mut self) -> bool {
        sweep_bptree::BPlusTreeSet::clear(self);
        true
    }
}

// ---------------------------------------------------------------- structure walker
pub enum View<'a, K, V, A> {
    Inner(&'a [K], &'a [A]),
    Leaf(&'a [K], &'a [V]),
}
struct PathVisit<'p, F, R> {
    path: &'p [usize],
    pos: usize,
    f: F,
    _r: PhantomData<R>,
}
impl<K, V, A, R, F: FnMut(View<K, V, A>) -> R> DescendVisit<K, V, A> for PathVisit<'_, F, R> {
    type Result = R;
    fn visit_inner(&mut self, keys: &[K], aggs: &[A]) -> DescendVisitResult<R> {
        if self.pos == self.path.len() {
            return DescendVisitResult::Complete((self.f)(View::Inner(keys, aggs)));
        }
        self.pos += 1;
        DescendVisitResult::GoDown(self.path[self.pos - 1])
    }
    fn visit_leaf(&mut self, keys: &[K], vals: &[V]) -> Option<R> {
        Some((self.f)(View::Leaf(keys, vals)))
    }
}

/// Snapshot of one node: `aggs` is the projection of the child aggregates shown to visitors
#[derive(Clone, Debug)]
pub struct Node<P> {
    pub keys: Vec<u64>,
    pub vals: Vec<u64>,
    pub aggs: Vec<P>,
    pub kids: Vec<usize>,
    pub leaf: bool,
    pub level: usize,
}
#[derive(Clone, Debug)]
pub struct Snap<P> {
    /// preorder; node 0 is the root
    pub nodes: Vec<Node<P>>,
}
impl<P> Snap<P> {
    pub fn leaves(&self) -> impl Iterator<Item = &Node<P>> {
        self.nodes.iter().filter(|n| n.leaf)
    }
    pub fn depth(&self) -> usize {
        self.nodes.iter().map(|n| n.level + 1).max().unwrap_or(0)
    }
    /// sizes per level from the root down: children counts, then leaf sizes
    pub fn levels(&self) -> Vec<Vec<usize>> {
        let mut l = vec![Vec::new(); self.depth()];
        for n in &self.nodes {
            l[n.level].push(if n.leaf { n.keys.len() } else { n.kids.len() });
        }
        l
    }
    pub fn hash(&self) -> u64 {
        let mut h = 7;
        for n in &self.nodes {
            h = mix(h, ((n.level as u64) << 32) | ((n.keys.len() as u64) << 1) | n.leaf as u64);
        }
        h
    }
}

/// Walk the whole structure through the public visitor. `lim` bounds the number of nodes, so that
/// a corrupted structure cannot make the walk endless.
pub fn snapshot<D, K, V, A, P>(d: &D, proj: impl Fn(&A) -> P, lim: usize) -> Snap<P>
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: Augmentation<K, V>,
{
    let mut nodes: Vec<Node<P>> = Vec::new();
    // (path, parent)
    let mut todo: Vec<(Vec<usize>, Option<usize>)> = vec![(Vec::new(), None)];
    while let Some((path, parent)) = todo.pop() {
        crate::core::progress();
        check_shape_limit(nodes.len(), lim, path.len());
        let node = d.visit(PathVisit {
            path: &path,
            pos: 0,
            f: |v: View<K, V, A>| match v {
                View::Inner(k, a) => Node {
                    keys: k.iter().map(|k| k.o()).collect(),
                    vals: Vec::new(),
                    aggs: a.iter().map(&proj).collect(),
                    kids: Vec::new(),
                    leaf: false,
                    level: path.len(),
                },
                View::Leaf(k, v) => Node {
                    keys: k.iter().map(|k| k.o()).collect(),
                    vals: v.iter().map(|v| v.get()).collect(),
                    aggs: Vec::new(),
                    kids: Vec::new(),
                    leaf: true,
                    level: path.len(),
                },
            },
            _r: PhantomData,
        });
        let Some(mut node) = node else {
            crate::fail!("a visitor that only goes down and completes got no result");
        };
        // a leaf met before the path ended sits higher than its siblings: keep its true depth
        if node.leaf {
            // level == path.len() when the descent used the whole path
        }
        let id = nodes.len();
        if !node.leaf {
            for c in (0..node.aggs.len()).rev() {
                let mut p = path.clone();
                p.push(c);
                todo.push((p, Some(id)));
            }
            node.kids.reserve(node.aggs.len());
        }
        nodes.push(node);
        if let Some(p) = parent {
            nodes[p].kids.push(id);
        }
    }
    Snap { nodes }
}

/// shape only
pub fn shape<D, K, V, A>(d: &D) -> Snap<()>
where
    D: Dict<K, V, A>,
    K: KeyT,
    V: ValT,
    A: AggT<K, V>,
{
    snapshot(d, |_| (), 4 * d.len() + 64)
}
