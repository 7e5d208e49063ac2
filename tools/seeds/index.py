"""Planted changes in indexed reading: C18, C19."""
H = '''mod pb;
use pb::*;
use osmpbf::*;
use std::io::Cursor;

fn s() -> Msg {
    Msg::new().msg(1, strings(&[""]))
}

/// a group of plain nodes
fn nodes(ids: &[i64]) -> Msg {
    ids.iter().fold(Msg::new(), |m, id| m.msg(1, Msg::new().sint(1, *id).sint(8, 0).sint(9, 0)))
}

fn way(id: i64, refs: &[i64]) -> Msg {
    let mut last = 0;
    let deltas: Vec<i64> = refs.iter().map(|r| { let d = r - last; last = *r; d }).collect();
    Msg::new().msg(3, Msg::new().int(1, id).spacked(8, &deltas))
}

#[allow(dead_code)]
fn relation(id: i64) -> Msg {
    Msg::new().msg(4, Msg::new().int(1, id))
}

fn id_of(e: &Element) -> (char, i64) {
    match e {
        Element::Node(n) => ('n', n.id()),
        Element::DenseNode(n) => ('n', n.id()),
        Element::Way(w) => ('w', w.id()),
        Element::Relation(r) => ('r', r.id()),
    }
}

#[allow(dead_code)]
fn all<R: std::io::Read + std::io::Seek + Send>(r: &mut IndexedReader<R>) -> (bool, Vec<i64>) {
    let mut out = vec![];
    let ok = r.for_each_node(|e| out.push(id_of(&e).1)).is_ok();
    (ok, out)
}

#[allow(dead_code)]
fn deps<R: std::io::Read + std::io::Seek + Send>(r: &mut IndexedReader<R>, want: &[i64]) -> (bool, Vec<(char, i64)>) {
    let mut out = vec![];
    let ok = r.read_ways_and_deps(|w| want.contains(&w.id()), |e| out.push(id_of(e))).is_ok();
    (ok, out)
}

'''
SEEDS = [
    dict(id="c18-broken-again", property="C18",
         edits=[("src/indexed.rs", '''                && info.nodes_available() != ElementsAvailable::No
            {
                let block = self
                    .reader
                    .blob_from_offset(info.offset)?
                    .to_primitiveblock()?;
''', '''                && info.nodes_available() != ElementsAvailable::No
            {
                let block = match self
                    .reader
                    .blob_from_offset(info.offset)?
                    .to_primitiveblock()
                {
                    Ok(block) => block,
                    Err(err) => {
                        // Do not try to decode this blob again
                        info.blob_type = SimpleBlobType::Unknown;
                        return Err(err);
                    }
                };
''')],
         needs="a data blob that does not decode, and a second call after the error",
         breaks="the second call succeeds without the nodes of that blob",
         demo=H + '''fn main() {
    let mut bytes = file(&[s().msg(2, nodes(&[1]))]);
    bytes.extend(blob("OSMData", &[0xff, 0xff]));
    let mut r = IndexedReader::new(Cursor::new(bytes)).unwrap();
    expect("first", all(&mut r), (false, vec![1]));
    expect("second", all(&mut r), (false, vec![1]));
}
'''),
    dict(id="c18-relations-break", property="C18",
         edits=[("src/indexed.rs", '''                check_min_max(relation.id(), &mut min_relation_id, &mut max_relation_id);
            }
''', '''                check_min_max(relation.id(), &mut min_relation_id, &mut max_relation_id);
            }

            // Elements are sorted by type, so there are only relations left.
            if max_relation_id.is_some() {
                break;
            }
''')],
         needs="a block whose nodes follow behind its relations, read twice",
         breaks="the nodes of the block are missing in the second iteration",
         demo=H + '''fn main() {
    let bytes = file(&[s().msg(2, relation(4)).msg(2, nodes(&[1, 2]))]);
    let mut r = IndexedReader::new(Cursor::new(bytes)).unwrap();
    expect("first", all(&mut r), (true, vec![1, 2]));
    expect("second", all(&mut r), (true, vec![1, 2]));
}
'''),
    dict(id="c18-single", property="C18",
         edits=[("src/indexed.rs", '''            if let (Some(min), Some(max)) = (min_id, max_id) {
                Some(RangeInclusive::new(min, max))
            } else {
                None
            }
''', '''            match (min_id, max_id) {
                (Some(min), Some(max)) if min < max => Some(RangeInclusive::new(min, max)),
                _ => None,
            }
''')],
         needs="a block with a single node, read twice",
         breaks="the node is missing in the second iteration",
         demo=H + '''fn main() {
    let bytes = file(&[s().msg(2, nodes(&[1])), s().msg(2, nodes(&[3, 2]))]);
    let mut r = IndexedReader::new(Cursor::new(bytes)).unwrap();
    expect("first", all(&mut r), (true, vec![1, 3, 2]));
    expect("second", all(&mut r), (true, vec![1, 3, 2]));
}
'''),
    dict(id="c18-ways-blob", property="C18",
         edits=[("src/indexed.rs", '''        match self.id_ranges {
            Some(IdRanges {
                node_ids: Some(_), ..
            }) => ElementsAvailable::Yes,
            Some(IdRanges { node_ids: None, .. }) => ElementsAvailable::No,
''', '''        match self.id_ranges {
            // blobs hold elements of one type only
            Some(IdRanges { way_ids: Some(_), .. }) => ElementsAvailable::No,
            Some(IdRanges {
                node_ids: Some(_), ..
            }) => ElementsAvailable::Yes,
            Some(IdRanges { node_ids: None, .. }) => ElementsAvailable::No,
''')],
         needs="a block that holds ways and nodes, and a call after its ranges are known",
         breaks="the nodes of the block are skipped",
         demo=H + '''fn main() {
    let bytes = file(&[s().msg(2, nodes(&[1, 2])).msg(2, way(5, &[1]))]);
    let mut r = IndexedReader::new(Cursor::new(bytes)).unwrap();
    expect("ways", deps(&mut r, &[5]), (true, vec![('w', 5), ('n', 1)]));
    expect("nodes", all(&mut r), (true, vec![1, 2]));
}
'''),
    dict(id="c18-no-seek", property="C18",
         edits=[("src/indexed.rs", '''        // Seek to the beginning of the reader.
        self.reader.seek(ByteOffset(0))?;
''', '''        // Nothing has been read yet, so the reader is at its beginning.
''')],
         needs="a call that fails while it creates the index, followed by another one",
         breaks="the second call succeeds without any node",
         demo=H + '''fn main() {
    let mut bytes = file(&[s().msg(2, nodes(&[1]))]);
    bytes.extend([0, 0]);
    let mut r = IndexedReader::new(Cursor::new(bytes)).unwrap();
    expect("first", all(&mut r), (false, vec![]));
    expect("second", all(&mut r), (false, vec![]));
}
'''),
]
