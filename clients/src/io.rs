//! Usages of the readers on an arbitrary source.
use crate::obs;
use osmpbf::*;
use std::io::{Read, Seek, SeekFrom};

/// An arbitrary seekable source.
pub struct Src(u64);

impl Read for Src {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        unimplemented!()
    }
}

impl Seek for Src {
    fn seek(&mut self, _: SeekFrom) -> std::io::Result<u64> {
        unimplemented!()
    }
}

/// What a user can do with a reader.
pub enum Cmd {
    Next,
    Header,
    Seek(u64),
    SeekRaw(SeekFrom),
    At(u64),
}

#[macro_export]
macro_rules! errors {
    ($name:ident, $p:literal) => {
        fn $name(e: Error) {
            match e.into_kind() {
                ErrorKind::Io(e) => {
                    obs(concat!($p, "io"), e.kind());
                    obs(concat!($p, "io_error"), e);
                }
                ErrorKind::Protobuf { err, location } => {
                    obs(concat!($p, "protobuf"), location);
                    obs(concat!($p, "protobuf_error"), err);
                }
                ErrorKind::Blob(BlobError::InvalidHeaderSize) => obs(concat!($p, "invalid_header_size"), ()),
                ErrorKind::Blob(BlobError::HeaderTooBig { size }) => obs(concat!($p, "header_too_big"), size),
                ErrorKind::Blob(BlobError::MessageTooBig { size }) => obs(concat!($p, "message_too_big"), size),
                ErrorKind::Blob(BlobError::Empty) => obs(concat!($p, "empty"), ()),
                _ => obs(concat!($p, "other_error"), ()),
            }
        }
    };
}

errors!(error, "");
errors!(decode_error, "dec_");
errors!(header_error, "hdr_");
errors!(data_error, "dat_");

fn blob(b: Blob) {
    obs("blob_offset", b.offset());
    obs("blob", b);
}

/// What the user knows: whether iteration ended with an error, whether that is not known (a failed seek inside of
/// another operation), and whether the position is known.
#[derive(Clone, Copy)]
struct Ghost {
    failed: bool,
    unclear: bool,
    known: bool,
}

fn step(r: &mut BlobReader<Src>, c: &Cmd, g: &mut Ghost) {
    match *c {
        Cmd::Next => {
            obs("next", (g.failed, g.unclear, g.known));
            match r.next() {
                None => {
                    g.known = false;
                    obs("none", ())
                }
                Some(Err(e)) => {
                    g.failed = true;
                    g.known = false;
                    error(e)
                }
                Some(Ok(b)) => blob(b),
            }
        }
        Cmd::Header => {
            obs("header", (g.failed, g.unclear, g.known));
            match r.next_header_skip_blob() {
                None => {
                    g.known = false;
                    obs("none", ())
                }
                Some(Err(e)) => {
                    g.failed = true;
                    g.known = false;
                    error(e)
                }
                Some(Ok((h, o))) => {
                    obs("header_offset", o);
                    obs("header_size", h.get_blob_size());
                    obs("blob_header", h);
                }
            }
        }
        Cmd::Seek(p) => {
            obs("seek", p);
            match r.seek(ByteOffset(p)) {
                Ok(()) => {
                    g.failed = false;
                    g.unclear = false;
                    g.known = true;
                    obs("ok", ())
                }
                Err(e) => {
                    g.known = false;
                    error(e)
                }
            }
        }
        Cmd::SeekRaw(p) => {
            obs("seek_raw", p);
            match r.seek_raw(p) {
                Ok(p) => {
                    g.failed = false;
                    g.unclear = false;
                    g.known = true;
                    obs("position", p)
                }
                Err(e) => {
                    g.known = false;
                    error(e)
                }
            }
        }
        Cmd::At(p) => {
            obs("at", p);
            match r.blob_from_offset(ByteOffset(p)) {
                Ok(b) => {
                    g.failed = false;
                    g.unclear = false;
                    g.known = true;
                    blob(b)
                }
                Err(e) => {
                    g.unclear = true;
                    g.known = false;
                    error(e)
                }
            }
        }
    }
}

pub fn i_known(src: Src, cmds: &[Cmd]) {
    match BlobReader::new_seekable(src) {
        Ok(mut r) => {
            obs("created", ());
            let mut g = Ghost { failed: false, unclear: false, known: true };
            for c in cmds {
                step(&mut r, c, &mut g);
            }
        }
        Err(e) => error(e),
    }
}

pub fn i_unknown(src: Src, cmds: &[Cmd]) {
    let mut r = BlobReader::new(src);
    let mut g = Ghost { failed: false, unclear: false, known: false };
    for c in cmds {
        step(&mut r, c, &mut g);
    }
}

/// Readers of files
pub fn i_file(path: &str, cmds: &[Cmd]) {
    match BlobReader::from_path(path) {
        Ok(mut r) => {
            obs("created", ());
            let mut g = Ghost { failed: false, unclear: false, known: true };
            for _ in cmds {
                obs("next", (g.failed, g.unclear, g.known));
                match r.next() {
                    None => {
                        g.known = false;
                        obs("none", ())
                    }
                    Some(Err(e)) => {
                        g.failed = true;
                        g.known = false;
                        error(e)
                    }
                    Some(Ok(b)) => blob(b),
                }
            }
        }
        Err(e) => error(e),
    }
}

pub fn i_seekable_file(path: &str, cmds: &[Cmd]) {
    match BlobReader::seekable_from_path(path) {
        Ok(mut r) => {
            obs("created", ());
            let mut g = Ghost { failed: false, unclear: false, known: true };
            for _ in cmds {
                obs("next", (g.failed, g.unclear, g.known));
                match r.next() {
                    None => {
                        g.known = false;
                        obs("none", ())
                    }
                    Some(Err(e)) => {
                        g.failed = true;
                        g.known = false;
                        error(e)
                    }
                    Some(Ok(b)) => blob(b),
                }
            }
        }
        Err(e) => error(e),
    }
}

// ---- memory maps
pub enum MapCmd {
    Next,
    Seek(u64),
}

pub fn i_map(map: &Mmap, cmds: &[MapCmd]) {
    let mut r = map.blob_iter();
    let mut failed = false;
    for c in cmds {
        match *c {
            MapCmd::Next => {
                obs("next", failed);
                match r.next() {
                    None => obs("none", ()),
                    Some(Err(e)) => {
                        failed = true;
                        error(e)
                    }
                    Some(Ok(b)) => {
                        obs("map_offset", b.offset());
                        obs("map_blob", b);
                    }
                }
            }
            MapCmd::Seek(p) => {
                obs("seek", p);
                r.seek(ByteOffset(p));
                failed = false;
            }
        }
    }
}

pub fn i_map_path(path: &str) {
    match unsafe { Mmap::from_path(path) } {
        Ok(m) => {
            obs("map", m.blob_iter());
        }
        Err(e) => error(e),
    }
}

pub fn i_map_file(file: &std::fs::File) {
    match unsafe { Mmap::from_file(file) } {
        Ok(m) => {
            obs("map", m.blob_iter());
        }
        Err(e) => error(e),
    }
}

// ---- decoding
fn kind(t: BlobType) {
    match t {
        BlobType::OsmHeader => obs("type_header", ()),
        BlobType::OsmData => obs("type_data", ()),
        BlobType::Unknown(s) => obs("type_unknown", s),
    }
}

fn decoded(r: Result<BlobDecode>) {
    match r {
        Ok(BlobDecode::OsmHeader(h)) => obs("dec_header", *h),
        Ok(BlobDecode::OsmData(d)) => obs("dec_data", d),
        Ok(BlobDecode::Unknown(s)) => obs("dec_unknown", s),
        Err(e) => decode_error(e),
    }
}

pub fn i_blob(b: &Blob) {
    kind(b.get_type());
    decoded(b.decode());
    match b.to_headerblock() {
        Ok(h) => obs("hdr_header", h),
        Err(e) => header_error(e),
    }
    match b.to_primitiveblock() {
        Ok(h) => obs("dat_data", h),
        Err(e) => data_error(e),
    }
}

pub fn i_blob_header(b: &BlobHeader) {
    kind(b.blob_type());
    obs("size", b.get_blob_size());
}

pub fn i_map_blob(map: &Mmap) {
    let mut r = map.blob_iter();
    loop {
        match r.next() {
            Some(Ok(b)) => {
                obs("map_offset", b.offset());
                kind(b.get_type());
                decoded(b.decode());
            }
            Some(Err(_)) => break,
            None => break,
        }
    }
}

pub fn i_as_str(t: &BlobType) {
    obs("as_str", t.as_str());
}
