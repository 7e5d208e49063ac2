//! Parallel reading. The parallel reduction of the library's pipeline is replaced by `reduce` (see rules.txt), which
//! takes one item after the other and does not assume anything about how the results are grouped.
use crate::errors;
use crate::io::Src;
use crate::obs;
use crate::read::element;
use osmpbf::*;
use rayon::iter::{IterBridge, Map, ParallelIterator, TryFold};

/// Partial results: their only operation is the reduction.
pub struct Sum(i64);

/// a + b without bounds
fn exact(_a: i64, _b: i64) -> i64 {
    unimplemented!()
}

/// An arbitrary weight of an element
fn weight(_kind: u8, _id: i64) -> i64 {
    unimplemented!()
}

/// The sum of the weights of all elements that were mapped since the last item
fn ghost() -> &'static mut i64 {
    unimplemented!()
}

/// An arbitrary value
fn any<T>() -> T {
    unimplemented!()
}

/// The first member of a struct
fn first<T, U>(_t: &mut T) -> &mut U {
    unimplemented!()
}

/// The second member of a struct
fn second<T, U>(_t: &mut T) -> &mut U {
    unimplemented!()
}

/// The third member of a struct
fn third<T, U>(_t: &mut T) -> &mut U {
    unimplemented!()
}

errors!(error, "");
errors!(item_error, "item_");

fn map(e: Element) -> Sum {
    element(&e);
    let w = match &e {
        Element::Node(n) => weight(0, n.id()),
        Element::DenseNode(n) => weight(1, n.id()),
        Element::Way(w) => weight(2, w.id()),
        Element::Relation(r) => weight(3, r.id()),
    };
    let g = ghost();
    *g = exact(*g, w);
    Sum(w)
}

pub fn p_map_reduce(src: Src) {
    match ElementReader::new(src).par_map_reduce(map, || Sum(0), |a, b| Sum(exact(a.0, b.0))) {
        Ok(x) => obs("ok", x.0),
        Err(e) => error(e),
    }
}

type R = Result<Sum>;

pub trait Seq {
    type Item;
    fn pull(&mut self) -> Option<Self::Item>;
}

impl<I: Iterator> Seq for IterBridge<I> {
    type Item = I::Item;
    fn pull(&mut self) -> Option<I::Item> {
        first::<Self, I>(self).next()
    }
}

impl<S: Seq + ParallelIterator, T, F: Fn(<S as Seq>::Item) -> T> Seq for Map<S, F> {
    type Item = T;
    fn pull(&mut self) -> Option<T> {
        match first::<Self, S>(self).pull() {
            None => None,
            Some(x) => Some(second::<Self, F>(self)(x)),
        }
    }
}

/// Every item is added to an arbitrary partial result.
impl<S: Seq + ParallelIterator, ID: Fn() -> Sum, F: Fn(Sum, <S as Seq>::Item) -> R> Seq for TryFold<S, R, ID, F> {
    type Item = R;
    fn pull(&mut self) -> Option<R> {
        obs("identity", second::<Self, ID>(self)().0);
        match first::<Self, S>(self).pull() {
            None => None,
            Some(x) => {
                let acc: i64 = any();
                let g = ghost();
                *g = exact(*g, acc);
                Some(third::<Self, F>(self)(Sum(acc), x))
            }
        }
    }
}

fn items<S: Seq<Item = R>>(mut s: S) {
    loop {
        *ghost() = 0;
        match s.pull() {
            None => break,
            Some(Ok(x)) => obs("item", (x.0, *ghost())),
            Some(Err(e)) => {
                obs("item_failed", ());
                item_error(e);
            }
        }
    }
}

fn combined(r: R) {
    match r {
        Ok(x) => obs("combined", x.0),
        Err(_) => obs("combined_failed", ()),
    }
}

/// The result is Ok(a value) or the error of an item
fn arbitrary() -> R {
    if any() {
        Ok(Sum(any()))
    } else {
        Err(any())
    }
}

fn end() -> R {
    let r = arbitrary();
    match &r {
        Ok(x) => obs("result", x.0),
        Err(_) => obs("result_failed", ()),
    }
    r
}

pub fn reduce<S, OP, ID>(s: S, identity: ID, op: OP) -> R
where
    S: Seq<Item = R>,
    OP: Fn(R, R) -> R,
    ID: Fn() -> R,
{
    items(s);
    match identity() {
        Ok(x) => obs("identity", x.0),
        Err(_) => obs("identity_failed", ()),
    }
    let (x, y): (i64, i64) = (any(), any());
    let (p, q): (bool, bool) = (any(), any());
    obs("operands", (p, x, q, y));
    let a = if p { Ok(Sum(x)) } else { Err(any()) };
    let b = if q { Ok(Sum(y)) } else { Err(any()) };
    combined(op(a, b));
    end()
}

pub fn try_reduce<S, T, OP, ID>(s: S, identity: ID, op: OP) -> R
where
    S: Seq<Item = R>,
    OP: Fn(Sum, Sum) -> R,
    ID: Fn() -> Sum,
{
    items(s);
    obs("identity", identity().0);
    let (x, y): (i64, i64) = (any(), any());
    obs("operands", (true, x, true, y));
    combined(op(Sum(x), Sum(y)));
    end()
}
