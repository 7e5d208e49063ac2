"""Planted changes against C22 and C28."""
H = "mod pb;\nuse pb::*;\nuse osmpbf::*;\n\n"
SEEDS = [
    dict(id="c22-date-default", property="C22",
         edits=[("src/proto/osmformat.proto", "optional int32 date_granularity = 18 [default=1000];", "optional int32 date_granularity = 18 [default=100];")],
         needs="a block that does not store its date granularity",
         breaks="the default date granularity is not the published one",
         demo=H + '''fn main() {
    let n = Msg::new().sint(1, 1).msg(4, Msg::new().int(2, 5)).sint(8, 1).sint(9, 2);
    let b = block_of(&Msg::new().msg(1, strings(&[""])).msg(2, Msg::new().msg(1, n)));
    for e in b.elements() {
        if let Element::Node(n) = e {
            expect("timestamp", n.info().milli_timestamp(), Some(5000));
        }
    }
}
'''),
    dict(id="c22-sequence", property="C22",
         edits=[("src/proto/osmformat.proto", "optional int64 osmosis_replication_timestamp = 32;", "optional int32 osmosis_replication_timestamp = 32;"),
                ("src/block.rs", "            Some(self.header.osmosis_replication_timestamp())", "            Some(i64::from(self.header.osmosis_replication_timestamp()))")],
         needs="a replication timestamp after 2038",
         breaks="the replication timestamp is read as a 32 bit value",
         demo=H + '''fn main() {
    let data = blob("OSMHeader", &Msg::new().int(32, 5_000_000_000).0);
    let b = BlobReader::new(&data[..]).next().unwrap().unwrap();
    expect("timestamp", b.to_headerblock().unwrap().osmosis_replication_timestamp(), Some(5_000_000_000));
}
'''),
    dict(id="c28-convert", property="C28",
         edits=[("src/error.rs", "        io::Error::other(err)", "        match err.into_kind() {\n            ErrorKind::Io(e) => io::Error::from(e.kind()),\n            kind => io::Error::other(new_error(kind)),\n        }")],
         needs="an I/O error that carries its own payload",
         breaks="the conversion to an I/O error keeps only the kind of the original I/O error",
         demo=H + '''use std::io;
fn main() {
    let e: Error = io::Error::new(io::ErrorKind::BrokenPipe, "upstream 42").into();
    let back: io::Error = e.into();
    let text = format!("{back}");
    expect("payload kept", text.contains("upstream 42"), true);
    let data = blob("OSMData", &[]);
    let e = BlobReader::new(&data[..]).next().unwrap().unwrap().to_primitiveblock();
    if let Err(e) = e {
        let text = format!("{e}");
        let back: io::Error = e.into();
        expect("message kept", format!("{back}"), text);
    }
}
'''),
    dict(id="c28-cause", property="C28",
         edits=[("src/error.rs", "            ErrorKind::StringtableUtf8 { ref err, .. } => Some(err),", "            ErrorKind::StringtableUtf8 { .. } => None,")],
         needs="a string that is not UTF-8, and a caller that asks for the cause",
         breaks="an invalid string's UTF-8 error is not exposed as the cause",
         demo=H + '''use std::error::Error as _;
fn main() {
    let st = Msg::new().bytes(1, b"").bytes(1, &[0xff, 0xfe]);
    let r = Msg::new().int(1, 1).packed(8, &[1]).spacked(9, &[5]).packed(10, &[0]);
    let b = block_of(&Msg::new().msg(1, st).msg(2, Msg::new().msg(4, r)));
    let mut seen = 0;
    for e in b.elements() {
        if let Element::Relation(r) = e {
            for m in r.members() {
                let e = m.role().err().unwrap();
                seen += 1;
                #[allow(deprecated)]
                let c = e.cause().is_some();
                expect("cause", c || e.source().is_some(), true);
            }
        }
    }
    expect("members", seen, 1);
}
'''),
    dict(id="c28-size-kib", property="C28",
         edits=[("src/error.rs", 'write!(f, "blob header is too big: {size} bytes")', 'write!(f, "blob header is too big: {} KiB", size / 1024)')],
         needs="a header that is too big and whose size is no multiple of 1024",
         breaks="the message of a header that is too big does not contain its size",
         demo=H + '''fn main() {
    let mut data = 70_001u32.to_be_bytes().to_vec();
    data.resize(80_000, 0);
    let e = BlobReader::new(&data[..]).next().unwrap().err().unwrap();
    expect("message", format!("{e}").contains("70001"), true);
}
'''),
]
