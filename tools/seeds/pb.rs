//! Hand-written encoder of OSM PBF files for the demonstrations.
#![allow(dead_code)]

#[derive(Clone, Default)]
pub struct Msg(pub Vec<u8>);

pub fn varint(mut v: u64) -> Vec<u8> {
    let mut out = Vec::new();
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
    out
}

pub fn zigzag(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}

impl Msg {
    pub fn new() -> Msg {
        Msg(Vec::new())
    }
    pub fn int(mut self, f: u64, v: i64) -> Msg {
        self.0.extend(varint(f << 3));
        self.0.extend(varint(v as u64));
        self
    }
    pub fn sint(self, f: u64, v: i64) -> Msg {
        self.int(f, zigzag(v) as i64)
    }
    pub fn bytes(mut self, f: u64, b: &[u8]) -> Msg {
        self.0.extend(varint(f << 3 | 2));
        self.0.extend(varint(b.len() as u64));
        self.0.extend(b);
        self
    }
    pub fn msg(self, f: u64, m: Msg) -> Msg {
        self.bytes(f, &m.0)
    }
    pub fn packed(self, f: u64, vs: &[i64]) -> Msg {
        let b: Vec<u8> = vs.iter().flat_map(|v| varint(*v as u64)).collect();
        self.bytes(f, &b)
    }
    pub fn spacked(self, f: u64, vs: &[i64]) -> Msg {
        let b: Vec<u8> = vs.iter().flat_map(|v| varint(zigzag(*v))).collect();
        self.bytes(f, &b)
    }
}

pub fn strings(ss: &[&str]) -> Msg {
    ss.iter().fold(Msg::new(), |m, s| m.bytes(1, s.as_bytes()))
}

/// A blob with an uncompressed payload, with its header
pub fn blob(ty: &str, data: &[u8]) -> Vec<u8> {
    framed(ty, &Msg::new().bytes(1, data).int(2, data.len() as i64).0)
}

/// Length, header and an already encoded blob message
pub fn framed(ty: &str, content: &[u8]) -> Vec<u8> {
    let h = Msg::new().bytes(1, ty.as_bytes()).int(3, content.len() as i64);
    let mut out = (h.0.len() as u32).to_be_bytes().to_vec();
    out.extend(h.0);
    out.extend(content);
    out
}

pub fn header_block() -> Msg {
    Msg::new().bytes(4, b"OsmSchema-V0.6").bytes(4, b"DenseNodes")
}

/// A header and one data blob per block
pub fn file(blocks: &[Msg]) -> Vec<u8> {
    let mut out = blob("OSMHeader", &header_block().0);
    for b in blocks {
        out.extend(blob("OSMData", &b.0));
    }
    out
}

pub fn block_of(m: &Msg) -> osmpbf::PrimitiveBlock {
    let bytes = blob("OSMData", &m.0);
    let b = osmpbf::BlobReader::new(std::io::Cursor::new(bytes)).next().unwrap().unwrap();
    b.to_primitiveblock().unwrap()
}

pub fn header_of(m: &Msg) -> osmpbf::HeaderBlock {
    let bytes = blob("OSMHeader", &m.0);
    let b = osmpbf::BlobReader::new(std::io::Cursor::new(bytes)).next().unwrap().unwrap();
    b.to_headerblock().unwrap()
}

/// dense nodes without info
pub fn dense(ids: &[i64], lats: &[i64], lons: &[i64], kv: &[i64]) -> Msg {
    Msg::new().spacked(1, ids).spacked(8, lats).spacked(9, lons).packed(10, kv)
}

/// fails (exit code 101) with a message if the values differ
pub fn expect<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    assert!(got == want, "{what}: got {got:?}, expected {want:?}");
}
