//! Indexed reading. The reader is in any state that its public operations leave behind.
use crate::errors;
use crate::io::Src;
use crate::read::element;
use crate::obs;
use osmpbf::*;
use std::collections::{BTreeSet, HashSet};

errors!(error, "");

/// Has the caller's filter accepted this way?
pub fn accept(_way: &Way) -> bool {
    false
}

/// Sets of ids
pub trait Bag<A> {
    fn put(&mut self, a: A);
}

impl Bag<i64> for BTreeSet<i64> {
    fn put(&mut self, a: i64) {
        self.insert(a);
    }
}

impl Bag<i64> for HashSet<i64> {
    fn put(&mut self, a: i64) {
        self.insert(a);
    }
}

/// Stands for `Extend::extend` (see rules.txt)
pub fn extend<S: Bag<A>, A, T: IntoIterator<Item = A>>(s: &mut S, it: T) {
    for x in it {
        s.put(x);
    }
}

pub fn x_nodes(r: &mut IndexedReader<Src>) {
    match r.for_each_node(|e| element(&e)) {
        Ok(()) => obs("ok", ()),
        Err(e) => error(e),
    }
}

pub fn x_ways(r: &mut IndexedReader<Src>) {
    let f = |w: &Way| {
        obs("filter", w.id());
        accept(w)
    };
    match r.read_ways_and_deps(f, element) {
        Ok(()) => obs("ok", ()),
        Err(e) => error(e),
    }
}

pub fn x_index(r: &mut IndexedReader<Src>) {
    match r.create_index() {
        Ok(()) => obs("ok", ()),
        Err(e) => error(e),
    }
}

pub fn x_new(src: Src) {
    match IndexedReader::new(src) {
        Ok(r) => obs("new", r),
        Err(e) => error(e),
    }
}
