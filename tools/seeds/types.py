"""Planted changes against C23, C24, C25 and C27."""
H = "mod pb;\nuse pb::*;\nuse osmpbf::*;\n\n"
SEEDS = [
    dict(id="c23-role", property="C23", script="reject.sh",
         edits=[("src/elements.rs", '''    pub fn role(&self) -> Result<&'a str> {
        str_from_stringtable(self.block, self.role_sid as usize)
''', '''    pub fn role<'b>(&self) -> Result<&'b str> {
        // The role names are kept in the string table, which is shared by all members.
        let table: &PrimitiveBlock = unsafe { &*(self.block as *const PrimitiveBlock) };
        str_from_stringtable(table, self.role_sid as usize)
''')],
         needs="a caller that keeps a role string and then drops the block",
         breaks="the role string of a member can be used after its block is gone",
         demo='''use osmpbf::*;
fn role(b: PrimitiveBlock) -> String {
    let mut kept = "";
    for g in b.groups() {
        for r in g.relations() {
            for m in r.members() {
                kept = m.role().unwrap_or("");
            }
        }
    }
    drop(b);
    kept.to_string()
}
fn main() {
    let _ = role;
}
''', files={"twin.rs": '''use osmpbf::*;
fn role(b: PrimitiveBlock) -> String {
    let mut kept = "";
    for g in b.groups() {
        for r in g.relations() {
            for m in r.members() {
                kept = m.role().unwrap_or("");
            }
        }
    }
    let s = kept.to_string();
    drop(b);
    s
}
fn main() {
    let _ = role;
}
'''}),
    dict(id="c23-safe-map", property="C23", script="reject.sh",
         edits=[("src/mmap_blob.rs", '''    pub unsafe fn from_file(file: &File) -> Result<Mmap> {
        memmap2::Mmap::map(file)
            .map(|m| Mmap { mmap: m })
''', '''    pub fn from_file(file: &File) -> Result<Mmap> {
        // The map is private to this process.
        unsafe { memmap2::MmapOptions::new().map(file) }
            .map(|m| Mmap { mmap: m })
''')],
         needs="a safe caller that maps a file which is then changed",
         breaks="a memory map of a file can be created without unsafe",
         demo='''use osmpbf::*;
fn map(f: &std::fs::File) -> Result<Mmap> {
    Mmap::from_file(f)
}
fn main() {
    let _ = map;
}
''', files={"twin.rs": '''#![allow(unused_unsafe)]
use osmpbf::*;
fn map(f: &std::fs::File) -> Result<Mmap> {
    unsafe { Mmap::from_file(f) }
}
fn main() {
    let _ = map;
}
'''}),
    dict(id="c23-escape", property="C23", script="reject.sh",
         edits=[("src/reader.rs", '''    pub fn for_each<F>(self, mut f: F) -> Result<()>
    where
        F: for<'a> FnMut(Element<'a>),
    {''', '''    pub fn for_each<'e, F>(self, mut f: F) -> Result<()>
    where
        F: FnMut(Element<'e>),
    {'''), ("src/reader.rs", '''                Ok(BlobDecode::OsmData(block)) => {
                    block.for_each_element(&mut f);
                }
''', '''                Ok(BlobDecode::OsmData(block)) => {
                    // Elements borrow from their block.
                    let block: &'e crate::block::PrimitiveBlock = Box::leak(Box::new(block));
                    for element in block.elements() {
                        f(element);
                    }
                }
''')],
         needs="a callback that keeps the elements that it gets",
         breaks="elements handed to the callback of for_each can be kept beyond it (and the blocks are never freed)",
         demo='''use osmpbf::*;
fn all(r: ElementReader<std::fs::File>) -> usize {
    let mut keep: Vec<Element> = Vec::new();
    let _ = r.for_each(|e| keep.push(e));
    keep.len()
}
fn main() {
    let _ = all;
}
''', files={"twin.rs": '''use osmpbf::*;
fn all(r: ElementReader<std::fs::File>) -> usize {
    let mut keep: Vec<i64> = Vec::new();
    let _ = r.for_each(|e| if let Element::Way(w) = e { keep.push(w.id()) });
    keep.len()
}
fn main() {
    let _ = all;
}
'''}),
    dict(id="c24-scratch", property="C24",
         edits=[("src/blob.rs", '''        if size < MAX_BLOB_MESSAGE_SIZE {
            T::parse_from_bytes(blob.raw()).map_err(|e| new_protobuf_error(e, "raw blob data"))
        } else {''', '''        if size < 4096 {
            T::parse_from_bytes(blob.raw()).map_err(|e| new_protobuf_error(e, "raw blob data"))
        } else if size < MAX_BLOB_MESSAGE_SIZE {
            // Large content is assembled in a buffer that is used again for the next blob.
            thread_local!(static BUFFER: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) });
            BUFFER.with(|b| {
                let mut b = b.borrow_mut();
                b.extend_from_slice(blob.raw());
                let message = T::parse_from_bytes(&b).map_err(|e| new_protobuf_error(e, "raw blob data"))?;
                b.clear();
                Ok(message)
            })
        } else {''')],
         needs="decoding a large malformed raw blob and then a large correct one on the same thread",
         breaks="the result of decoding depends on what was decoded before on this thread",
         demo=H + '''fn main() {
    let long = "x".repeat(10000);
    let good = Msg::new().msg(1, strings(&["", &long])).msg(2, Msg::new().msg(1, Msg::new().sint(1, 5).sint(8, 1).sint(9, 2)));
    let mut data = blob("OSMData", &[0xff; 5000]);
    data.extend(blob("OSMData", &good.0));
    let blobs: Vec<Blob> = BlobReader::new(&data[..]).map(|b| b.unwrap()).collect();
    expect("the malformed blob", blobs[0].decode().is_err(), true);
    expect("the correct blob", blobs[1].decode().is_ok(), true);
}
'''),
    dict(id="c24-create", property="C24",
         edits=[("src/indexed.rs", "        let f = File::open(path)?;", '''        // The index needs a file that can be opened more than once.
        let f = File::options().read(true).append(true).create(true).open(path)?;''')],
         needs="opening an indexed reader with a path that does not exist",
         breaks="opening a path for indexed reading creates the file",
         demo=H + '''fn main() {
    let p = std::path::Path::new(&std::env::var("DEMO_DIR").unwrap()).join("missing.osm.pbf");
    let r = IndexedReader::from_path(&p);
    expect("opening a missing file fails", r.is_err(), true);
    expect("the file is still missing", p.exists(), false);
}
'''),
    dict(id="c24-counter", property="C24",
         edits=[("src/blob.rs", '''    /// Decodes the Blob and tries to obtain the inner content (usually a [`HeaderBlock`] or a''', '''    fn warn_once(&self) -> bool {
        static SEEN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
        SEEN.swap(true, std::sync::atomic::Ordering::Relaxed)
    }

    /// Decodes the Blob and tries to obtain the inner content (usually a [`HeaderBlock`] or a'''),
                ("src/blob.rs", "            BlobType::Unknown(x) => Ok(BlobDecode::Unknown(x)),\n        }\n    }\n\n    /// Returns the type of a blob", '''            BlobType::Unknown(x) if self.warn_once() => Ok(BlobDecode::Unknown(&x[..0])),
            BlobType::Unknown(x) => Ok(BlobDecode::Unknown(x)),
        }
    }

    /// Returns the type of a blob''')],
         needs="decoding blobs of unknown types twice in one process",
         breaks="only the first blob of an unknown type in a process reports its type",
         demo=H + '''fn main() {
    let mut data = blob("Extra", &[]);
    data.extend(blob("Extra", &[]));
    for b in BlobReader::new(&data[..]) {
        let b = b.unwrap();
        match b.decode().unwrap() {
            BlobDecode::Unknown(s) => expect("type", s, "Extra"),
            _ => panic!("unexpected type"),
        };
    }
}
'''),
    dict(id="c25-index", property="C25", script="accept.sh",
         edits=[("src/indexed.rs", "    index: Vec<BlobInfo>,\n}", "    index: std::rc::Rc<Vec<BlobInfo>>,\n}"),
                ("src/indexed.rs", "            index: vec![],\n", "            index: Default::default(),\n"),
                ("src/indexed.rs", "        for info in &mut self.index {\n            //TODO do something useful with header blocks", "        for info in std::rc::Rc::make_mut(&mut self.index) {\n            //TODO do something useful with header blocks") if False else None],
         needs="", breaks="", demo=""),
    dict(id="c25-way", property="C25", script="accept.sh",
         edits=[("src/elements.rs", '''pub struct Way<'a> {
    block: &'a PrimitiveBlock,
    osmway: &'a osmformat::Way,
}''', '''pub struct Way<'a> {
    block: &'a PrimitiveBlock,
    osmway: &'a osmformat::Way,
    node_count: std::cell::Cell<Option<usize>>,
}'''), ("src/elements.rs", '''        Way { block, osmway }
''', '''        Way {
            block,
            osmway,
            node_count: Default::default(),
        }
'''), ("src/elements.rs", '''    pub fn raw_refs(&self) -> &[i64] {
''', '''    pub fn raw_refs(&self) -> &[i64] {
        self.node_count.set(Some(self.osmway.refs.len()));
''')],
         needs="a caller that shares ways between threads",
         breaks="ways (and elements) cannot be shared between threads any more",
         demo=H + '''fn main() {
    let way = Msg::new().int(1, 5).spacked(8, &[1, 1]);
    let b = block_of(&Msg::new().msg(1, strings(&[""])).msg(2, Msg::new().msg(3, way)));
    let ways: Vec<Way> = b.groups().flat_map(|g| g.ways()).collect();
    let n: usize = std::thread::scope(|s| {
        let hs: Vec<_> = (0..2).map(|_| s.spawn(|| ways.iter().map(|w| w.raw_refs().len()).sum::<usize>())).collect();
        hs.into_iter().map(|h| h.join().unwrap()).sum()
    });
    expect("references", n, 4);
}
'''),
    dict(id="c25-bounds", property="C25", script="reject.sh",
         edits=[("src/reader.rs", '''        MP: for<'a> Fn(Element<'a>) -> T + Sync + Send,
        RD: Fn(T, T) -> T + Sync + Send,
        ID: Fn() -> T + Sync + Send,
        T: Send,
    {
        self.blob_iter
            .par_bridge()
            .map(|blob| match blob?.decode() {
                Ok(BlobDecode::OsmHeader(_)) | Ok(BlobDecode::Unknown(_)) => Ok(identity()),
                Ok(BlobDecode::OsmData(block)) => {
                    Ok(block.elements().map(&map_op).fold(identity(), &reduce_op))
                }
                Err(e) => Err(e),
            })
            .reduce(
                || Ok(identity()),
                |a, b| match (a, b) {
                    (Ok(x), Ok(y)) => Ok(reduce_op(x, y)),
                    (x, y) => x.and(y),
                },
            )
''', '''        MP: for<'a> Fn(Element<'a>) -> T,
        RD: Fn(T, T) -> T,
        ID: Fn() -> T,
    {
        // Decode in parallel, some blobs at a time, and combine the results here.
        let mut blobs = self.blob_iter;
        let mut result = identity();
        loop {
            let some: Vec<_> = blobs.by_ref().take(64).collect();
            if some.is_empty() {
                return Ok(result);
            }
            let decoded: Vec<_> = some
                .into_par_iter()
                .map(|blob| {
                    let blob = blob?;
                    match blob.decode()? {
                        BlobDecode::OsmData(block) => Ok::<_, crate::error::Error>(Some(block)),
                        _ => Ok(None),
                    }
                })
                .collect();
            for block in decoded {
                let block: Option<crate::block::PrimitiveBlock> = block?;
                let part = match block {
                    Some(block) => block.elements().map(&map_op).fold(identity(), &reduce_op),
                    None => identity(),
                };
                result = reduce_op(result, part);
            }
        }
''')],
         needs="a caller that relies on the compiler to reject unshareable state",
         breaks="the parallel operation accepts functions that are not safe to share and results that are not safe to send",
         demo='''use osmpbf::*;
use std::rc::Rc;
fn count(r: ElementReader<std::fs::File>) -> Result<Rc<u64>> {
    let one = Rc::new(1u64);
    r.par_map_reduce(|_| one.clone(), || Rc::new(0), |a, b| Rc::new(*a + *b))
}
fn main() {
    let _ = count;
}
''', files={"twin.rs": '''use osmpbf::*;
use std::sync::Arc;
fn count(r: ElementReader<std::fs::File>) -> Result<Arc<u64>> {
    let one = Arc::new(1u64);
    r.par_map_reduce(|_| one.clone(), || Arc::new(0), |a, b| Arc::new(*a + *b))
}
fn main() {
    let _ = count;
}
'''}),
    dict(id="c27-pair", property="C27", script="features.sh",
         edits=[("src/lib.rs", '''    all(feature = "rust-zlib", feature = "zlib"),
    all(feature = "rust-zlib", feature = "zlib-ng"),
    all(feature = "zlib", feature = "zlib-ng")
''', '''    all(feature = "rust-zlib", feature = "zlib"),
    all(feature = "rust-zlib", feature = "zlib-ng"),
    all(feature = "zlib", feature = "zlib_ng")
''')],
         needs="a build with the features zlib and zlib-ng",
         breaks="two zlib backends can be activated together",
         files={"features.inc": '''for p in rust-zlib zlib zlib-ng; do
    try "$p" || { echo "$p alone is rejected"; exit 1; }
done
for p in zlib,zlib-ng rust-zlib,zlib rust-zlib,zlib-ng; do
    if try "$p"; then echo "$p is accepted"; exit 1; fi
done
exit 0
'''}),
    dict(id="c27-code", property="C27", script="features.sh",
         edits=[("src/blob.rs", "pub static MAX_BLOB_MESSAGE_SIZE: u64 = 32 * 1024 * 1024;", '''#[cfg(not(feature = "zlib-ng"))]
pub static MAX_BLOB_MESSAGE_SIZE: u64 = 32 * 1024 * 1024;

/// Maximum allowed uncompressed blob content size in bytes. The zlib-ng backend needs some space of its own.
#[cfg(feature = "zlib-ng")]
pub static MAX_BLOB_MESSAGE_SIZE: u64 = 32 * 1024 * 1024 - 64 * 1024;''')],
         needs="a build with the feature zlib-ng", breaks="the choice of the backend changes the size limit",
         files={"features.inc": '''mkdir "$d/examples2" && cat > "$d/examples2/limit.rs" <<'EOF'
fn main() {
    println!("{} {}", osmpbf::blob::MAX_BLOB_MESSAGE_SIZE, osmpbf::blob::MAX_BLOB_HEADER_SIZE);
}
EOF
printf '\\n[[example]]\\nname = "limit"\\npath = "examples2/limit.rs"\\n' >> "$d/Cargo.toml"
for p in rust-zlib zlib zlib-ng; do
    out=$(cargo run -q --offline --no-default-features --features "$p" --example limit) || exit 2
    echo "$p: $out"
    [ "$out" = "$((32 * 1024 * 1024)) $((64 * 1024))" ] || exit 1
done
exit 0
'''}),
]
SEEDS = [s for s in SEEDS if s["id"] != "c25-index"]
