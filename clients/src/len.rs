use crate::obs;
use osmpbf::*;

/// Compares what an iterator reports with a count of the items that follow.
fn count<I: ExactSizeIterator>(mut it: I) {
    let mut left = it.len();
    loop {
        obs("len", (left, it.len()));
        obs("hint", it.size_hint());
        if it.next().is_none() {
            break;
        }
        left -= 1;
    }
    obs("end", (left, it.len()));
    obs("hint_end", it.size_hint());
}

pub fn l_groups(b: &PrimitiveBlock) {
    count(b.groups());
}

pub fn l_nodes(g: &PrimitiveGroup) {
    count(g.nodes());
}

pub fn l_ways(g: &PrimitiveGroup) {
    count(g.ways());
}

pub fn l_relations(g: &PrimitiveGroup) {
    count(g.relations());
}

pub fn l_dense(g: &PrimitiveGroup) {
    count(g.dense_nodes());
}

pub fn l_node_tags(n: &Node) {
    count(n.tags());
}

pub fn l_node_raw_tags(n: &Node) {
    count(n.raw_tags());
}

pub fn l_way_tags(n: &Way) {
    count(n.tags());
}

pub fn l_way_raw_tags(n: &Way) {
    count(n.raw_tags());
}

pub fn l_rel_tags(n: &Relation) {
    count(n.tags());
}

pub fn l_rel_raw_tags(n: &Relation) {
    count(n.raw_tags());
}

pub fn l_refs(w: &Way) {
    count(w.refs());
}

pub fn l_locations(w: &Way) {
    count(w.node_locations());
}

pub fn l_members(r: &Relation) {
    count(r.members());
}

pub fn l_dense_tags(n: &DenseNode) {
    count(n.tags());
}

pub fn l_dense_raw_tags(n: &DenseNode) {
    count(n.raw_tags());
}

/// The iterators without an exact length.
pub fn l_elements(b: &PrimitiveBlock) {
    let mut it = b.elements();
    loop {
        obs("hint", it.size_hint());
        if it.next().is_none() {
            break;
        }
    }
}
