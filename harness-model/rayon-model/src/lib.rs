//! Stands in for rayon in the replay of schedules the specification (HullPar.tla) enumerates.
//! Every scheduling decision of a parallel reduction - how the items are cut in leaves, and in
//! which bracketing the leaves are combined - is taken from the tree the harness sets.
//! A leaf folds its items one by one onto a fresh identity, exactly as rayon does.
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub enum Tree {
    Leaf(usize),
    Node(Box<Tree>, Box<Tree>),
}
impl Tree {
    pub fn size(&self) -> usize {
        match self {
            Tree::Leaf(n) => *n,
            Tree::Node(l, r) => l.size() + r.size(),
        }
    }
    fn leaves(&self, out: &mut Vec<usize>) {
        match self {
            Tree::Leaf(n) => out.push(*n),
            Tree::Node(l, r) => {
                l.leaves(out);
                r.leaves(out)
            }
        }
    }
    fn ones(&self) -> Tree {
        match self {
            Tree::Leaf(_) => Tree::Leaf(1),
            Tree::Node(l, r) => Tree::Node(Box::new(l.ones()), Box::new(r.ones())),
        }
    }
}
thread_local! {
    static TREE: RefCell<Option<Tree>> = const { RefCell::new(None) };
    static USED: RefCell<usize> = const { RefCell::new(0) };
}
/// sets the schedule of all reductions that follow and fit its size
pub fn set_tree(t: Option<Tree>) {
    TREE.with(|x| *x.borrow_mut() = t);
    USED.with(|x| *x.borrow_mut() = 0);
}
/// how many reductions followed the given schedule
pub fn used() -> usize {
    USED.with(|x| *x.borrow())
}
fn tree_for(n: usize) -> Tree {
    TREE.with(|x| match &*x.borrow() {
        Some(t) if t.size() == n => {
            USED.with(|u| *u.borrow_mut() += 1);
            t.clone()
        }
        _ => Tree::Leaf(n),
    })
}

pub struct Par<I>(I);

fn eval<T>(
    t: &Tree,
    it: &mut impl Iterator<Item = T>,
    id: &impl Fn() -> T,
    op: &impl Fn(T, T) -> T,
) -> T {
    match t {
        Tree::Leaf(n) => {
            let mut acc = id();
            for _ in 0..*n {
                let x = it.next().unwrap();
                acc = op(acc, x)
            }
            acc
        }
        Tree::Node(l, r) => {
            let a = eval(l, it, id, op);
            let b = eval(r, it, id, op);
            op(a, b)
        }
    }
}

impl<I: Iterator> Par<I> {
    pub fn map<R, F: Fn(I::Item) -> R>(self, f: F) -> Par<std::iter::Map<I, F>> {
        Par(self.0.map(f))
    }
    pub fn filter<F: Fn(&I::Item) -> bool>(self, f: F) -> Par<std::iter::Filter<I, F>> {
        Par(self.0.filter(f))
    }
    pub fn filter_map<R, F: Fn(I::Item) -> Option<R>>(self, f: F) -> Par<std::iter::FilterMap<I, F>> {
        Par(self.0.filter_map(f))
    }
    pub fn flat_map<R: IntoIterator, F: Fn(I::Item) -> R>(self, f: F) -> Par<std::iter::FlatMap<I, R, F>> {
        Par(self.0.flat_map(f))
    }
    pub fn enumerate(self) -> Par<std::iter::Enumerate<I>> {
        Par(self.0.enumerate())
    }
    pub fn zip<J: IntoIterator>(self, j: J) -> Par<std::iter::Zip<I, J::IntoIter>> {
        Par(self.0.zip(j))
    }
    pub fn copied<'a, T: 'a + Copy>(self) -> Par<std::iter::Copied<I>>
    where
        I: Iterator<Item = &'a T>,
    {
        Par(self.0.copied())
    }
    pub fn cloned<'a, T: 'a + Clone>(self) -> Par<std::iter::Cloned<I>>
    where
        I: Iterator<Item = &'a T>,
    {
        Par(self.0.cloned())
    }
    pub fn with_min_len(self, _: usize) -> Self {
        self
    }
    pub fn with_max_len(self, _: usize) -> Self {
        self
    }
    pub fn collect<C: FromIterator<I::Item>>(self) -> C {
        self.0.collect()
    }
    pub fn for_each<F: Fn(I::Item)>(self, f: F) {
        self.0.for_each(f)
    }
    pub fn count(self) -> usize {
        self.0.count()
    }
    pub fn sum<S: std::iter::Sum<I::Item>>(self) -> S {
        self.0.sum()
    }
    pub fn all<F: Fn(I::Item) -> bool>(mut self, f: F) -> bool {
        self.0.all(f)
    }
    pub fn any<F: Fn(I::Item) -> bool>(mut self, f: F) -> bool {
        self.0.any(f)
    }
    pub fn find_any<F: Fn(&I::Item) -> bool>(mut self, f: F) -> Option<I::Item> {
        self.0.find(f)
    }
    pub fn find_first<F: Fn(&I::Item) -> bool>(mut self, f: F) -> Option<I::Item> {
        self.0.find(f)
    }
    pub fn min_by<F: Fn(&I::Item, &I::Item) -> std::cmp::Ordering>(self, f: F) -> Option<I::Item> {
        self.0.min_by(f)
    }
    pub fn max_by<F: Fn(&I::Item, &I::Item) -> std::cmp::Ordering>(self, f: F) -> Option<I::Item> {
        self.0.max_by(f)
    }
    pub fn min_by_key<K: Ord, F: Fn(&I::Item) -> K>(self, f: F) -> Option<I::Item> {
        self.0.min_by_key(f)
    }
    pub fn max_by_key<K: Ord, F: Fn(&I::Item) -> K>(self, f: F) -> Option<I::Item> {
        self.0.max_by_key(f)
    }
    pub fn reduce<D: Fn() -> I::Item, O: Fn(I::Item, I::Item) -> I::Item>(self, id: D, op: O) -> I::Item {
        let v: Vec<I::Item> = self.0.collect();
        let t = tree_for(v.len());
        eval(&t, &mut v.into_iter(), &id, &op)
    }
    pub fn reduce_with<O: Fn(I::Item, I::Item) -> I::Item>(self, op: O) -> Option<I::Item> {
        self.map(Some).reduce(
            || None,
            |a, b| match (a, b) {
                (Some(a), Some(b)) => Some(op(a, b)),
                (a, None) => a,
                (None, b) => b,
            },
        )
    }
    pub fn fold<S, D: Fn() -> S, O: Fn(S, I::Item) -> S>(self, id: D, op: O) -> Par<std::vec::IntoIter<S>> {
        let v: Vec<I::Item> = self.0.collect();
        let t = tree_for(v.len());
        let mut sizes = vec![];
        t.leaves(&mut sizes);
        let mut it = v.into_iter();
        let mut out = vec![];
        for n in sizes {
            let mut acc = id();
            for _ in 0..n {
                acc = op(acc, it.next().unwrap())
            }
            out.push(acc)
        }
        TREE.with(|x| *x.borrow_mut() = Some(t.ones()));
        Par(out.into_iter())
    }
}
impl<A, E, I: Iterator<Item = Result<A, E>>> Par<I> {
    pub fn try_reduce<D: Fn() -> A, O: Fn(A, A) -> Result<A, E>>(self, id: D, op: O) -> Result<A, E> {
        self.reduce(|| Ok(id()), |a, b| op(a?, b?))
    }
}

pub trait ParallelIterator {}
pub trait IndexedParallelIterator {}
pub trait IntoParallelIterator: IntoIterator + Sized {
    fn into_par_iter(self) -> Par<Self::IntoIter> {
        Par(self.into_iter())
    }
}
impl<T: IntoIterator> IntoParallelIterator for T {}
pub trait IntoParallelRefIterator<'a> {
    type Iter: Iterator;
    fn par_iter(&'a self) -> Par<Self::Iter>;
}
impl<'a, C: ?Sized + 'a> IntoParallelRefIterator<'a> for C
where
    &'a C: IntoIterator,
{
    type Iter = <&'a C as IntoIterator>::IntoIter;
    fn par_iter(&'a self) -> Par<Self::Iter> {
        Par(self.into_iter())
    }
}
pub trait ParallelSlice<T> {
    fn par_chunks(&self, n: usize) -> Par<std::slice::Chunks<'_, T>>;
}
impl<T> ParallelSlice<T> for [T] {
    fn par_chunks(&self, n: usize) -> Par<std::slice::Chunks<'_, T>> {
        Par(self.chunks(n))
    }
}
pub fn join<A, B>(a: impl FnOnce() -> A, b: impl FnOnce() -> B) -> (A, B) {
    let x = a();
    (x, b())
}
pub fn current_num_threads() -> usize {
    1
}
pub mod slice {
    pub use crate::ParallelSlice;
}
pub mod iter {
    pub use crate::{
        IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, ParallelIterator,
    };
}
pub mod prelude {
    pub use crate::{
        IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, ParallelIterator,
        ParallelSlice,
    };
}
