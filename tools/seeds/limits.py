"""Planted changes in panics and lengths: C20, C21."""
H = '''mod pb;
use pb::*;
use osmpbf::*;

'''
BLOCK = '''fn with_relation(roles: &[i64], ids: &[i64], types: &[i64]) -> PrimitiveBlock {
    block_of(&Msg::new().msg(1, strings(&["", "r"])).msg(2, Msg::new().msg(4,
        Msg::new().int(1, 7).packed(8, roles).spacked(9, ids).packed(10, types))))
}

'''
SEEDS = [
    dict(id="c20-odd-tags", property="C20",
         edits=[("src/dense.rs", "if chunk[0] != 0 && chunk.len() == 2 {", "if chunk[0] != 0 && chunk[1] >= 0 {")],
         needs="a dense group whose key/value array ends with an unpaired key",
         breaks="iterating its nodes panics",
         demo=H + '''fn main() {
    let b = block_of(&Msg::new().msg(1, strings(&["", "k"])).msg(2, Msg::new().msg(2, dense(&[1], &[1], &[1], &[1]))));
    let n = std::panic::catch_unwind(|| b.elements().count()).ok();
    expect("nodes", n, Some(1));
}
'''),
    dict(id="c20-role", property="C20",
         edits=[("src/elements.rs", "str_from_stringtable(self.block, self.role_sid as usize)",
                 "let sid = usize::try_from(self.role_sid).expect(\"string indices are not negative\");\n        str_from_stringtable(self.block, sid)")],
         needs="a relation member with a negative role index",
         breaks="asking for its role panics",
         demo=H + BLOCK + '''fn main() {
    let b = with_relation(&[-1], &[5], &[0]);
    let ok = std::panic::catch_unwind(|| {
        b.groups().for_each(|g| g.relations().for_each(|r| r.members().for_each(|m| assert!(m.role().is_err() || true))));
    }).is_ok();
    expect("no panic", ok, true);
}
'''),
    dict(id="c20-header-cut", property="C20",
         edits=[("src/mmap_blob.rs", "if slice.len() < 4 + header_size {", "if slice.len() <= header_size {")],
         needs="a mapped file that ends 1 to 3 bytes before the end of a header",
         breaks="reading it panics",
         demo=H + '''fn main() {
    let full = framed("OSMHeader", &[]);
    let dir = std::env::temp_dir().join(format!("c20-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("x.pbf");
    std::fs::write(&path, &full[..full.len() - 2]).unwrap();
    let r = std::panic::catch_unwind(|| {
        let map = unsafe { Mmap::from_path(&path) }.unwrap();
        let n = MmapBlobReader::new(&map).next().map(|r| r.is_err());
        n
    });
    std::fs::remove_dir_all(&dir).unwrap();
    expect("outcome", r.ok(), Some(Some(true)));
}
'''),
    dict(id="c21-empty-groups", property="C21",
         edits=[("src/block.rs", '''    fn size_hint(&self) -> (usize, Option<usize>) {
        self.groups.size_hint()
    }
''', '''    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self
            .groups
            .clone()
            .filter(|g| {
                g.dense.is_some()
                    || !(g.nodes.is_empty()
                        && g.ways.is_empty()
                        && g.relations.is_empty()
                        && g.changesets.is_empty())
            })
            .count();
        (n, Some(n))
    }
''')],
         needs="a block with an empty group",
         breaks="the reported number of groups is too small",
         demo=H + '''fn main() {
    let b = block_of(&Msg::new().msg(1, strings(&[""])).msg(2, Msg::new()));
    expect("groups", (b.groups().len(), b.groups().count()), (1, 1));
}
'''),
    dict(id="c21-member-count", property="C21",
         edits=[("src/elements.rs", '''    current_member_id: i64,
}

impl<'a> RelMemberIter<'a> {''', '''    current_member_id: i64,
    remaining: usize,
}

impl<'a> RelMemberIter<'a> {'''),
                ("src/elements.rs", '''            current_member_id: 0,
''', '''            current_member_id: 0,
            remaining: osmrel.memids.len(),
'''),
                ("src/elements.rs", '''                self.current_member_id += *mem_id_delta;
''', '''                self.current_member_id += *mem_id_delta;
                if *mem_id_delta != 0 {
                    self.remaining -= 1;
                }
'''),
                ("src/elements.rs", '''    fn size_hint(&self) -> (usize, Option<usize>) {
        self.role_sids.size_hint()
    }
''', '''    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.remaining, Some(self.remaining))
    }
''')],
         needs="a relation with the same member id twice in a row, and asking for the length after the first step",
         breaks="the reported number of members is too large",
         demo=H + BLOCK + '''fn main() {
    let b = with_relation(&[0, 1], &[5, 0], &[0, 0]);
    for g in b.groups() {
        for r in g.relations() {
            let mut it = r.members();
            let mut lens = vec![it.len()];
            while it.next().is_some() {
                lens.push(it.len());
            }
            expect("lengths", lens, vec![2, 1, 0]);
        }
    }
}
'''),
    dict(id="c21-dense-info", property="C21",
         edits=[("src/dense.rs", '''    fn size_hint(&self) -> (usize, Option<usize>) {
        self.dids.size_hint()
    }
''', '''    fn size_hint(&self) -> (usize, Option<usize>) {
        match &self.info_iter {
            Some(info) if info.versions.len() > 0 => info.visible.size_hint(),
            _ => self.dids.size_hint(),
        }
    }
''')],
         needs="dense nodes with metadata but without visibility flags",
         breaks="the reported number of dense nodes is 0",
         demo=H + '''fn main() {
    let d = dense(&[1, 1], &[1, 1], &[1, 1], &[]).msg(5, Msg::new().packed(1, &[1, 1]).spacked(2, &[0, 0]).spacked(3, &[0, 0]).spacked(4, &[0, 0]).spacked(5, &[0, 0]));
    let b = block_of(&Msg::new().msg(1, strings(&[""])).msg(2, Msg::new().msg(2, d)));
    for g in b.groups() {
        expect("dense nodes", (g.dense_nodes().len(), g.dense_nodes().count()), (2, 2));
    }
}
'''),
]
