//! Usages of the error type.
use crate::obs;
use osmpbf::*;
use std::fmt::{Display, Formatter};

pub fn e_kinds(e: Error) {
    match e.kind() {
        ErrorKind::Io(x) => obs("k_io", x),
        ErrorKind::Protobuf { err, location } => obs("k_protobuf", (err, *location)),
        ErrorKind::StringtableUtf8 { err, index } => obs("k_utf8", (err, *index)),
        ErrorKind::StringtableIndexOutOfBounds { index } => obs("k_bounds", *index),
        ErrorKind::Blob(BlobError::InvalidHeaderSize) => obs("k_header_size", ()),
        ErrorKind::Blob(BlobError::HeaderTooBig { size }) => obs("k_header_big", *size),
        ErrorKind::Blob(BlobError::MessageTooBig { size }) => obs("k_message_big", *size),
        ErrorKind::Blob(BlobError::Empty) => obs("k_empty", ()),
        _ => obs("k_other", ()),
    }
    match e.into_kind() {
        ErrorKind::Io(x) => obs("i_io", x),
        ErrorKind::Protobuf { err, location } => obs("i_protobuf", (err, location)),
        ErrorKind::StringtableUtf8 { err, index } => obs("i_utf8", (err, index)),
        ErrorKind::StringtableIndexOutOfBounds { index } => obs("i_bounds", index),
        ErrorKind::Blob(BlobError::InvalidHeaderSize) => obs("i_header_size", ()),
        ErrorKind::Blob(BlobError::HeaderTooBig { size }) => obs("i_header_big", size),
        ErrorKind::Blob(BlobError::MessageTooBig { size }) => obs("i_message_big", size),
        ErrorKind::Blob(BlobError::Empty) => obs("i_empty", ()),
        _ => obs("i_other", ()),
    }
}

#[allow(deprecated)]
pub fn e_cause(e: &Error) {
    obs("kind", e.kind());
    match std::error::Error::cause(e) {
        Some(c) => obs("cause", c),
        None => obs("no_cause", ()),
    }
}

pub fn e_display(e: &Error, f: &mut Formatter<'_>) {
    obs("kind", e.kind());
    let _ = Display::fmt(e, f);
}

pub fn e_to_io(e: Error) {
    obs("kind", e.kind());
    obs("to_io", std::io::Error::from(e));
}

pub fn e_from_io(x: std::io::Error) {
    match Error::from(x).into_kind() {
        ErrorKind::Io(x) => obs("from_io", x),
        _ => obs("from_other", ()),
    }
}
