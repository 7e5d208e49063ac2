//! Reading whole files: ElementReader and IndexedReader.
use crate::errors;
use crate::io::Src;
use crate::obs;
use osmpbf::*;

pub fn element(e: &Element) {
    match e {
        Element::Node(n) => obs("node", n.id()),
        Element::DenseNode(n) => obs("dense", n.id()),
        Element::Way(w) => obs("way", w.id()),
        Element::Relation(r) => obs("rel", r.id()),
    }
}

errors!(error, "");

pub fn r_for_each(src: Src) {
    match ElementReader::new(src).for_each(|e| element(&e)) {
        Ok(()) => obs("ok", ()),
        Err(e) => error(e),
    }
}
