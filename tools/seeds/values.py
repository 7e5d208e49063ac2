"""Planted changes in the decoding of values: C01 .. C08."""
H = "mod pb;\nuse pb::*;\nuse osmpbf::*;\n\n"
SEEDS = [
    dict(id="c01-lon-offset", property="C01",
         edits=[("src/dense.rs", "self.block.lon_offset() + i64::from(self.block.granularity()) * self.lon", "self.block.lat_offset() + i64::from(self.block.granularity()) * self.lon")],
         needs="a block whose lat_offset and lon_offset differ, with dense nodes",
         breaks="the longitude of a dense node is computed with the latitude offset",
         demo=H + '''fn main() {
    let b = block_of(&Msg::new().msg(1, strings(&[""])).int(17, 10).int(19, 1000).int(20, 77).msg(2, Msg::new().msg(2, dense(&[1], &[5], &[6], &[]))));
    for e in b.elements() {
        if let Element::DenseNode(n) = e {
            expect("nano_lon", n.nano_lon(), 77 + 60);
            expect("nano_lat", n.nano_lat(), 1000 + 50);
        }
    }
}
'''),
    dict(id="c01-decimicro-floor", property="C01",
         edits=[("src/elements.rs", '''    pub fn nano_lat(&self) -> i64 {
        self.block.lat_offset() + i64::from(self.block.granularity()) * self.osmnode.lat()
    }

    /// Returns the latitude coordinate in decimicrodegrees (10⁻⁷).
    pub fn decimicro_lat(&self) -> i32 {
        (self.nano_lat() / 100) as i32''', '''    pub fn nano_lat(&self) -> i64 {
        self.block.lat_offset() + i64::from(self.block.granularity()) * self.osmnode.lat()
    }

    /// Returns the latitude coordinate in decimicrodegrees (10⁻⁷).
    pub fn decimicro_lat(&self) -> i32 {
        self.nano_lat().div_euclid(100) as i32''')],
         needs="a plain node with a negative latitude that is no multiple of 100 nanodegrees",
         breaks="decimicro_lat rounds towards minus infinity instead of truncating",
         demo=H + '''fn main() {
    let n = Msg::new().sint(1, 1).sint(8, -150).sint(9, -250);
    let b = block_of(&Msg::new().msg(1, strings(&[""])).int(17, 1).msg(2, Msg::new().msg(1, n)));
    for e in b.elements() {
        if let Element::Node(n) = e {
            expect("decimicro_lat", n.decimicro_lat(), -1);
            expect("decimicro_lon", n.decimicro_lon(), -2);
        }
    }
}
'''),
    dict(id="c02-dense-carry", property="C02",
         edits=[("src/block.rs", '''                    self.dense_nodes = DenseNodeIter::new(self.block, group.dense.get_or_default());
''', '''                    let previous = self.dense_nodes.clone();
                    self.dense_nodes = DenseNodeIter::new(self.block, group.dense.get_or_default());
                    self.dense_nodes.continue_from(&previous);
'''), ("src/dense.rs", '''    pub(crate) fn empty(block''', '''    pub(crate) fn continue_from(&mut self, previous: &DenseNodeIter<'a>) {
        self.cid = previous.cid;
    }

    pub(crate) fn empty(block''')],
         needs="a block with two groups of dense nodes",
         breaks="the ids of the second group's dense nodes continue the running sum of the first group",
         demo=H + '''fn main() {
    let b = block_of(&Msg::new().msg(1, strings(&[""]))
        .msg(2, Msg::new().msg(2, dense(&[10, 1], &[1, 1], &[1, 1], &[])))
        .msg(2, Msg::new().msg(2, dense(&[3, 1], &[1, 1], &[1, 1], &[]))));
    let ids: Vec<i64> = b.elements().map(|e| match e { Element::DenseNode(n) => n.id(), _ => -1 }).collect();
    expect("ids", ids, vec![10, 11, 3, 4]);
}
'''),
    dict(id="c02-locations-swap", property="C02",
         edits=[("src/elements.rs", '''                self.clat += dlat;
                self.clon += dlon;
''', '''                self.clat += dlat;
                if dlon != dlat {
                    self.clon += dlon;
                }
''')],
         needs="a way with node locations where the two deltas of a position are equal",
         breaks="an equal delta is not added to the longitude sum",
         demo=H + '''fn main() {
    let w = Msg::new().int(1, 1).spacked(8, &[1, 1, 1]).spacked(9, &[10, 20, 30]).spacked(10, &[10, 5, 30]);
    let b = block_of(&Msg::new().msg(1, strings(&[""])).int(17, 1).msg(2, Msg::new().msg(3, w)));
    for e in b.elements() {
        if let Element::Way(w) = e {
            let l: Vec<(i64, i64)> = w.node_locations().map(|l| (l.nano_lat(), l.nano_lon())).collect();
            expect("locations", l, vec![(10, 10), (30, 15), (60, 45)]);
        }
    }
}
'''),
    dict(id="c03-dense-date", property="C03",
         edits=[("src/dense.rs", "self.timestamp * i64::from(self.block.date_granularity())", "self.timestamp * 1000")],
         needs="a block with a date granularity other than 1000",
         breaks="the time stamp of a dense node ignores the block's date granularity",
         demo=H + '''fn main() {
    let info = Msg::new().packed(1, &[4]).spacked(2, &[60]).spacked(3, &[9]).spacked(4, &[7]).spacked(5, &[0]);
    let d = dense(&[1], &[1], &[1], &[]).msg(5, info);
    let b = block_of(&Msg::new().msg(1, strings(&[""])).int(18, 60000).msg(2, Msg::new().msg(2, d)));
    for e in b.elements() {
        if let Element::DenseNode(n) = e {
            expect("milli_timestamp", n.info().unwrap().milli_timestamp(), 3_600_000);
        }
    }
}
'''),
    dict(id="c03-visible-version", property="C03",
         edits=[("src/elements.rs", "self.info.visible.unwrap_or(true)", "self.info.visible.unwrap_or(self.info.version != Some(0))")],
         needs="an element with version 0 and without a visible flag",
         breaks="such an element is reported as deleted",
         demo=H + '''fn main() {
    let w = Msg::new().int(1, 1).msg(4, Msg::new().int(1, 0));
    let b = block_of(&Msg::new().msg(1, strings(&[""])).msg(2, Msg::new().msg(3, w)));
    for e in b.elements() {
        if let Element::Way(w) = e {
            expect("visible", w.info().visible(), true);
        }
    }
}
'''),
    dict(id="c04-empty-source", property="C04",
         edits=[("src/block.rs", "if self.header.has_source() {", "if !self.header.source().is_empty() {")],
         needs="a header with a source field that is present and empty",
         breaks="the present field is reported as absent",
         demo=H + '''fn main() {
    let h = header_of(&header_block().bytes(17, b""));
    expect("source", h.source(), Some(""));
}
'''),
    dict(id="c01-bbox-clamp", property="C01",
         edits=[("src/block.rs", "top: (bbox.top() as f64) * 1.0_e-9,", "top: (bbox.top().max(bbox.bottom()) as f64) * 1.0_e-9,")],
         needs="a header bounding box whose top is below its bottom",
         breaks="the top coordinate is replaced by the bottom one",
         demo=H + '''fn main() {
    let h = header_of(&header_block().msg(1, Msg::new().sint(1, 1).sint(2, 2).sint(3, -3_000_000_000).sint(4, 4_000_000_000)));
    let b = h.bbox().unwrap();
    assert!((b.top + 3.0).abs() < 1e-9, "top {}", b.top);
}
'''),
    dict(id="c05-role-16bit", property="C05",
         edits=[("src/elements.rs", "str_from_stringtable(self.block, self.role_sid as usize)", "str_from_stringtable(self.block, self.role_sid as u16 as usize)")],
         needs="a relation member whose role is stored behind entry 65535 of the string table",
         breaks="the role is looked up at the index modulo 65536",
         demo=H + '''fn main() {
    let s: Vec<String> = (0..65540).map(|i| format!("s{i}")).collect();
    let r: Vec<&str> = s.iter().map(|x| x.as_str()).collect();
    let rel = Msg::new().int(1, 1).packed(8, &[65537]).spacked(9, &[4]).packed(10, &[1]);
    let b = block_of(&Msg::new().msg(1, strings(&r)).msg(2, Msg::new().msg(4, rel)));
    for e in b.elements() {
        if let Element::Relation(r) = e {
            for m in r.members() {
                expect("role", m.role().unwrap(), "s65537");
            }
        }
    }
}
'''),
    dict(id="c05-user-zero", property="C05",
         edits=[("src/elements.rs", '''                self.info.user_sid() as usize,
''', '''                self.info.user_sid().max(1) as usize,
''')],
         needs="an element whose user is stored at index 0 of the string table",
         breaks="the entry at index 1 is reported as the user",
         demo=H + '''fn main() {
    let w = Msg::new().int(1, 1).msg(4, Msg::new().int(1, 3).int(5, 0));
    let b = block_of(&Msg::new().msg(1, strings(&["zero", "one"])).msg(2, Msg::new().msg(3, w)));
    for e in b.elements() {
        if let Element::Way(w) = e {
            expect("user", w.info().user().unwrap().unwrap(), "zero");
        }
    }
}
'''),
    dict(id="c06-zero-key", property="C06",
         edits=[("src/elements.rs", "(Some(&key_index), Some(&val_index)) => Some((key_index, val_index)),", "(Some(&key_index), Some(&val_index)) if key_index != 0 => Some((key_index, val_index)),")],
         needs="an element with a tag whose key index is 0",
         breaks="the raw tags end at that tag",
         demo=H + '''fn main() {
    let w = Msg::new().int(1, 1).packed(2, &[1, 0, 2]).packed(3, &[3, 4, 5]);
    let b = block_of(&Msg::new().msg(1, strings(&["a", "b", "c", "d", "e", "f"])).msg(2, Msg::new().msg(3, w)));
    for e in b.elements() {
        if let Element::Way(w) = e {
            expect("raw tags", w.raw_tags().collect::<Vec<_>>(), vec![(1, 3), (0, 4), (2, 5)]);
        }
    }
}
'''),
    dict(id="c06-member-skip", property="C06",
         edits=[("src/elements.rs", '''        match (
            self.role_sids.next(),
            self.member_id_deltas.next(),
''', '''        if self.role_sids.len() > self.member_types.len() {
            self.role_sids.next();
        }
        match (
            self.role_sids.next(),
            self.member_id_deltas.next(),
''')],
         needs="a relation with more roles than member types",
         breaks="the first roles are skipped, so that a member is reported with another member's role",
         demo=H + '''fn main() {
    let rel = Msg::new().int(1, 1).packed(8, &[1, 2, 3]).spacked(9, &[4, 5]).packed(10, &[1, 1]);
    let b = block_of(&Msg::new().msg(1, strings(&["", "a", "b", "c"])).msg(2, Msg::new().msg(4, rel)));
    for e in b.elements() {
        if let Element::Relation(r) = e {
            let m: Vec<_> = r.members().map(|m| (m.role_sid, m.member_id)).collect();
            expect("members", m, vec![(1, 4), (2, 9)]);
        }
    }
}
'''),
    dict(id="c07-zero-value", property="C07",
         edits=[("src/dense.rs", "if chunk[0] != 0 && chunk.len() == 2 {", "if chunk.len() == 2 && chunk[0] * chunk[1] != 0 {")],
         needs="a dense node with a tag whose value index is 0",
         breaks="the value is taken for a delimiter, and the tags of the following nodes shift",
         demo=H + '''fn main() {
    let b = block_of(&Msg::new().msg(1, strings(&["", "a", "b", "c"])).msg(2, Msg::new().msg(2, dense(&[1, 1], &[1, 1], &[1, 1], &[1, 0, 2, 3, 0, 3, 1, 0]))));
    let t: Vec<Vec<(i32, i32)>> = b.elements().map(|e| match e { Element::DenseNode(n) => n.raw_tags().collect(), _ => vec![] }).collect();
    expect("tags", t, vec![vec![(1, 0), (2, 3)], vec![(3, 1)]]);
}
'''),
    dict(id="c07-empty-run", property="C07",
         edits=[("src/dense.rs", '''                        self.keys_vals_index += 1;
                        break;
''', '''                        self.keys_vals_index += if chunk.len() == 2 && chunk[1] == 0 && end_index > start_index { 2 } else { 1 };
                        break;
''')],
         needs="a dense node with tags that is followed by a node without tags",
         breaks="the delimiter of the untagged node is skipped, so that it gets the tags of the next node",
         demo=H + '''fn main() {
    let b = block_of(&Msg::new().msg(1, strings(&["", "a", "b", "c"])).msg(2, Msg::new().msg(2, dense(&[1, 1, 1], &[1, 1, 1], &[1, 1, 1], &[1, 2, 0, 0, 3, 1, 0]))));
    let t: Vec<Vec<(i32, i32)>> = b.elements().map(|e| match e { Element::DenseNode(n) => n.raw_tags().collect(), _ => vec![] }).collect();
    expect("tags", t, vec![vec![(1, 2)], vec![], vec![(3, 1)]]);
}
'''),
    dict(id="c08-mixed-group", property="C08",
         edits=[("src/block.rs", "self.state = ElementsIterState::Way;", "self.state = if self.relations.len() == 0 {\n                        ElementsIterState::Way\n                    } else {\n                        ElementsIterState::Relation\n                    };")],
         needs="a group that holds both ways and relations",
         breaks="the ways of such a group are not visited",
         demo=H + '''fn main() {
    let b = block_of(&Msg::new().msg(1, strings(&[""])).msg(2, Msg::new().msg(3, Msg::new().int(1, 7)).msg(4, Msg::new().int(1, 8))));
    expect("elements", b.elements().count(), 2);
}
'''),
    dict(id="c08-callback-stop", property="C08",
         edits=[("src/block.rs", '''            for node in group.nodes() {
                f(Element::Node(node))
            }
            for dnode in group.dense_nodes() {''', '''            let mut dense_only = true;
            for node in group.nodes() {
                dense_only = false;
                f(Element::Node(node))
            }
            if !dense_only {
                continue;
            }
            for dnode in group.dense_nodes() {''')],
         needs="a group that holds plain nodes and other elements, walked with for_each_element",
         breaks="the other elements of a group with plain nodes are skipped",
         demo=H + '''fn main() {
    let n = Msg::new().sint(1, 1).sint(8, 2).sint(9, 3);
    let b = block_of(&Msg::new().msg(1, strings(&[""])).msg(2, Msg::new().msg(1, n).msg(3, Msg::new().int(1, 7))));
    let mut k = 0;
    b.for_each_element(|_| k += 1);
    expect("elements", k, 2);
}
'''),
]
