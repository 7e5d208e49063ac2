"""Planted changes in reading and decoding blobs: C11 .. C17, C26."""
H = "mod pb;\nuse pb::*;\nuse osmpbf::*;\nuse std::io::Cursor;\n\n"
MAPPED = '''fn mapped(bytes: &[u8]) -> Mmap {
    let p = std::path::Path::new(&std::env::var("DEMO_DIR").unwrap()).join("map.bin");
    std::fs::write(&p, bytes).unwrap();
    unsafe { Mmap::from_path(p).unwrap() }
}

'''
SEEDS = [
    dict(id="c11-end-seek", property="C11",
         edits=[("src/blob.rs", '''    pub fn seek_raw(&mut self, pos: SeekFrom) -> Result<u64> {
        match self.reader.seek(pos) {
            Ok(offset) => {
                self.offset = Some(ByteOffset(offset));''', '''    pub fn seek_raw(&mut self, pos: SeekFrom) -> Result<u64> {
        match self.reader.seek(pos) {
            Ok(offset) => {
                self.offset = match pos {
                    SeekFrom::Start(p) => Some(ByteOffset(p)),
                    // relative seeks move the tracked position
                    SeekFrom::Current(d) => self.offset.map(|x| ByteOffset((x.0 as i64 + d) as u64)),
                    SeekFrom::End(_) => Some(ByteOffset(offset)),
                };''')],
         needs="a relative seek after the position was lost by an error or the end of the source",
         breaks="the offset stays unknown after a successful relative seek",
         demo=H + '''fn main() {
    let bytes = file(&[Msg::new().msg(1, strings(&[""]))]);
    let mut r = BlobReader::new_seekable(Cursor::new(bytes.clone())).unwrap();
    while let Some(b) = r.next() {
        b.unwrap();
    }
    let n = bytes.len() as i64;
    expect("position", r.seek_raw(std::io::SeekFrom::Current(-n)).unwrap(), 0);
    expect("offset", r.next().unwrap().unwrap().offset(), Some(ByteOffset(0)));
}
'''),
    dict(id="c11-start-offset", property="C11",
         edits=[("src/blob.rs", '''        let pos = reader.stream_position()?;

        Ok(BlobReader {''', '''        // nothing of the source has been consumed yet
        let pos = reader.seek(SeekFrom::Current(0)).map(|p| p.min(MAX_BLOB_HEADER_SIZE))?;

        Ok(BlobReader {''')],
         needs="a source that is positioned beyond 64 KiB when the reader is created",
         breaks="offsets of blobs are wrong for a source that does not start at its beginning",
         demo=H + '''fn main() {
    let mut bytes = vec![0u8; 70000];
    bytes.extend(file(&[]));
    let mut c = Cursor::new(bytes);
    c.set_position(70000);
    let mut r = BlobReader::new_seekable(c).unwrap();
    expect("offset", r.next().unwrap().unwrap().offset(), Some(ByteOffset(70000)));
}
'''),
    dict(id="c12-short-tail", property="C12",
         edits=[("src/mmap_blob.rs", "            0 => return None,\n            1..=3 => {", "            // a lone padding byte at the end\n            0..=1 => return None,\n            2..=3 => {")],
         needs="a mapped file with exactly one byte behind its last blob",
         breaks="an incomplete record is taken for the end",
         demo=H + MAPPED + '''fn main() {
    let mut bytes = file(&[]);
    bytes.push(0);
    let m = mapped(&bytes);
    let mut it = m.blob_iter();
    assert!(it.next().unwrap().is_ok());
    assert!(matches!(it.next(), Some(Err(_))), "the incomplete record is no error");
    assert!(it.next().is_none());
}
'''),
    dict(id="c26-map-seek", property="C26",
         edits=[("src/mmap_blob.rs", "        self.offset = pos.0 as usize;", "        self.offset = pos.0 as u32 as usize;")],
         needs="seeking a memory-mapped reader to a position of 4 GiB or more",
         breaks="a position far beyond the end yields blobs from the beginning of the file",
         demo=H + MAPPED + '''fn main() {
    let m = mapped(&file(&[]));
    let mut it = m.blob_iter();
    it.seek(ByteOffset(1 << 32));
    assert!(it.next().is_none(), "a blob beyond the end");
}
'''),
    dict(id="c13-raw-limit", property="C13",
         edits=[("src/blob.rs", "        if size < MAX_BLOB_MESSAGE_SIZE {", "        if size <= MAX_BLOB_MESSAGE_SIZE {")],
         needs="raw content of exactly 32 MiB",
         breaks="raw content of the limit's size is accepted",
         demo=H + '''fn main() {
    // one unknown field that fills the payload up to exactly 32 MiB
    let n = 32 * 1024 * 1024;
    let mut m = Msg::new().msg(1, strings(&[""]));
    let rest = n - m.0.len() - 6;
    m = m.bytes(100, &vec![0u8; rest]);
    expect("size", m.0.len(), n);
    let b = BlobReader::new(Cursor::new(blob("OSMData", &m.0))).next();
    let b = match b {
        Some(Ok(b)) => b,
        x => panic!("{:?}", x.map(|x| x.map(|_| ()))),
    };
    assert!(b.to_primitiveblock().is_err(), "content of 32 MiB is accepted");
}
'''),
    dict(id="c13-map-header", property="C13",
         edits=[("src/mmap_blob.rs", "        if header_size as u64 >= MAX_BLOB_HEADER_SIZE {", "        if header_size as u64 > MAX_BLOB_HEADER_SIZE {")],
         needs="a mapped record whose header has exactly 64 KiB",
         breaks="a header of the limit's size is parsed",
         demo=H + MAPPED + '''fn main() {
    let n = 64 * 1024;
    let h = Msg::new().bytes(1, b"x").int(3, 0);
    let fill = n - h.0.len() - 4;
    let h = h.bytes(2, &vec![0u8; fill]);
    expect("size", h.0.len(), n);
    let mut bytes = (n as u32).to_be_bytes().to_vec();
    bytes.extend(h.0);
    let m = mapped(&bytes);
    let r = m.blob_iter().next();
    assert!(matches!(r, Some(Err(_))), "the header is accepted");
}
'''),
    dict(id="c14-too-big-again", property="C14",
         edits=[("src/blob.rs", '''        if header_size >= MAX_BLOB_HEADER_SIZE {
            self.last_blob_ok = false;
''', '''        if header_size >= MAX_BLOB_HEADER_SIZE {
            self.offset = None;
''')],
         needs="a header length that is too big, and calling next again after the error",
         breaks="iteration goes on inside of the broken record",
         demo=H + '''fn main() {
    let mut bytes = vec![0xff, 0xff, 0xff, 0xff];
    bytes.extend(file(&[]));
    let mut r = BlobReader::new(Cursor::new(bytes));
    assert!(matches!(r.next(), Some(Err(_))));
    assert!(r.next().is_none(), "iteration goes on after the error");
}
'''),
    dict(id="c14-skip-error", property="C14",
         edits=[("src/blob.rs", '''        if let Err(err) = self.seek_raw(SeekFrom::Current(header.datasize() as i64)) {
            self.last_blob_ok = false;
            return''', '''        if let Err(err) = self.seek_raw(SeekFrom::Current(header.datasize() as i64)) {
            return''')],
         needs="a source whose seek fails while skipping the content of a blob",
         breaks="after the error the next header is read from within the skipped blob",
         demo=H + '''use std::io::{Read, Seek, SeekFrom};
struct S(Cursor<Vec<u8>>);
impl Read for S {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(b)
    }
}
impl Seek for S {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        match p {
            SeekFrom::Current(n) if n > 0 => Err(std::io::Error::new(std::io::ErrorKind::Other, "no")),
            _ => self.0.seek(p),
        }
    }
}
fn main() {
    let mut r = BlobReader::new_seekable(S(std::io::Cursor::new(file(&[])))).unwrap();
    assert!(matches!(r.next_header_skip_blob(), Some(Err(_))));
    assert!(r.next_header_skip_blob().is_none(), "iteration goes on after the error");
}
'''),
    dict(id="c15-position", property="C15",
         edits=[("src/blob.rs", "let pos = reader.stream_position()?;", "let pos = reader.stream_position().unwrap_or_default();")],
         needs="a source whose position cannot be told",
         breaks="the failure is ignored and the position is taken to be 0",
         demo=H + '''use std::io::{Read, Seek, SeekFrom};
struct S(std::io::Cursor<Vec<u8>>);
impl Read for S {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(b)
    }
}
impl Seek for S {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        match p {
            SeekFrom::Current(0) => Err(std::io::Error::new(std::io::ErrorKind::Other, "no")),
            _ => self.0.seek(p),
        }
    }
    fn stream_position(&mut self) -> std::io::Result<u64> {
        Err(std::io::Error::new(std::io::ErrorKind::Other, "no"))
    }
}
fn main() {
    assert!(BlobReader::new_seekable(S(std::io::Cursor::new(file(&[])))).is_err(), "the failure is ignored");
}
'''),
    dict(id="c15-kinds", property="C15",
         edits=[("src/blob.rs", "                self.last_blob_ok = false;\n                return Some(Err(new_protobuf_error(e, \"blob header\")));",
                 "                self.last_blob_ok = false;\n                if header_size == 0 {\n                    // padding between blobs\n                    return None;\n                }\n                return Some(Err(new_protobuf_error(e, \"blob header\")));")],
         needs="a header length of zero",
         breaks="a record without header ends the iteration without an error",
         demo=H + '''fn main() {
    let mut bytes = vec![0, 0, 0, 0];
    bytes.extend(file(&[]));
    let mut r = BlobReader::new(Cursor::new(bytes));
    assert!(matches!(r.next(), Some(Err(_))), "the broken record is no error");
}
'''),
    dict(id="c16-header-case", property="C16",
         edits=[("src/blob.rs", '''    pub fn blob_type(&self) -> BlobType<'_> {
        match self.header.type_() {
            "OSMHeader" => BlobType::OsmHeader,
            "OSMData" => BlobType::OsmData,''', '''    pub fn blob_type(&self) -> BlobType<'_> {
        match self.header.type_() {
            "OSMHeader" => BlobType::OsmHeader,
            "OSMData" | "OsmData" => BlobType::OsmData,''')],
         needs="a blob header of type OsmData",
         breaks="header queries take a type for data that everything else takes for unknown",
         demo=H + '''fn main() {
    let mut r = BlobReader::new_seekable(Cursor::new(blob("OsmData", b"x"))).unwrap();
    let (h, _) = r.next_header_skip_blob().unwrap().unwrap();
    assert!(matches!(h.blob_type(), BlobType::Unknown("OsmData")));
}
'''),
    dict(id="c16-prefix", property="C16",
         edits=[("src/mmap_blob.rs", '''    pub fn get_type(&self) -> BlobType<'_> {
        match self.header.type_() {
            "OSMHeader" => BlobType::OsmHeader,
            "OSMData" => BlobType::OsmData,
            x =>''', '''    pub fn get_type(&self) -> BlobType<'_> {
        match self.header.type_() {
            "OSMHeader" => BlobType::OsmHeader,
            x if x.starts_with("OSMData") => BlobType::OsmData,
            x =>''')],
         needs="a mapped blob whose type only starts with OSMData",
         breaks="the type query of mapped blobs takes other types for data",
         demo=H + MAPPED + '''fn main() {
    let m = mapped(&blob("OSMDataX", b"x"));
    let b = m.blob_iter().next().unwrap().unwrap();
    assert!(matches!(b.get_type(), BlobType::Unknown("OSMDataX")), "{:?}", b.get_type());
}
'''),
    dict(id="c17-empty-raw", property="C17",
         edits=[("src/blob.rs", "    if blob.has_raw() {", "    if !blob.raw().is_empty() {")],
         needs="a blob with an empty raw payload",
         breaks="an empty raw payload is reported as a blob without payload",
         demo=H + '''fn main() {
    // an empty payload is a complete (empty) header
    let b = BlobReader::new(Cursor::new(blob("OSMHeader", b""))).next().unwrap().unwrap();
    assert!(b.to_headerblock().is_ok(), "the empty payload is an error");
}
'''),
    dict(id="c17-location", property="C17",
         edits=[("src/blob.rs", "            T::parse_from_bytes(blob.raw()).map_err(|e| new_protobuf_error(e, \"raw blob data\"))",
                 "            T::parse_from_bytes(blob.raw()).map_err(|e| new_protobuf_error(e, \"blob zlib data\"))")],
         needs="raw content that does not parse",
         breaks="the error names the wrong payload",
         demo=H + '''fn main() {
    let b = BlobReader::new(Cursor::new(blob("OSMHeader", &[0xff, 0xff]))).next().unwrap().unwrap();
    let e = b.to_headerblock().unwrap_err();
    match e.kind() {
        ErrorKind::Protobuf { location, .. } => assert!(location.contains("raw"), "{location}"),
        k => panic!("{k:?}"),
    }
}
'''),
    dict(id="c26-same-offset", property="C26",
         edits=[("src/blob.rs", "        self.seek(pos)?;\n        self.next()", "        // no need to move if the reader is already there\n        if self.offset != Some(pos) {\n            self.seek(pos)?;\n        }\n        self.next()")],
         needs="a header length that is too big, followed by random access to the byte behind it",
         breaks="the blob at that offset is not returned, as the earlier error still counts",
         demo=H + '''fn main() {
    let mut bytes = vec![0xff, 0xff, 0xff, 0xff];
    bytes.extend(file(&[]));
    let mut r = BlobReader::new_seekable(Cursor::new(bytes)).unwrap();
    assert!(matches!(r.next(), Some(Err(_))));
    let b = r.blob_from_offset(ByteOffset(4)).expect("the blob at offset 4");
    expect("offset", b.offset(), Some(ByteOffset(4)));
}
'''),
]
