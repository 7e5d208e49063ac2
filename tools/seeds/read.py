"""Planted changes in reading elements: C09, C10, C18, C19."""
H = '''mod pb;
use pb::*;
use osmpbf::*;
use std::io::Cursor;

fn way(id: i64) -> Msg {
    Msg::new().msg(1, strings(&[""])).msg(2, Msg::new().msg(3, Msg::new().int(1, id)))
}

fn ids(bytes: Vec<u8>) -> (bool, Vec<i64>) {
    let mut out = vec![];
    let r = ElementReader::new(Cursor::new(bytes)).for_each(|e| {
        if let Element::Way(w) = e {
            out.push(w.id());
        }
    });
    (r.is_ok(), out)
}

'''
PAR = '''fn count(bytes: Vec<u8>) -> Option<i64> {
    ElementReader::new(Cursor::new(bytes)).par_map_reduce(|_| 1, || 0, |a, b| a + b).ok()
}

'''
LOOP = '''        for blob in self.blob_iter {
            match blob?.decode() {
                Ok(BlobDecode::OsmHeader(_)) | Ok(BlobDecode::Unknown(_)) => {}
                Ok(BlobDecode::OsmData(block)) => {
                    block.for_each_element(&mut f);
                }
                Err(e) => return Err(e),
            }
        }
'''
SEEDS = [
    dict(id="c09-leading-error", property="C09",
         edits=[("src/reader.rs", LOOP, '''        let mut started = false;
        for blob in self.blob_iter {
            match blob?.decode() {
                Ok(BlobDecode::OsmHeader(_)) | Ok(BlobDecode::Unknown(_)) => {}
                Ok(BlobDecode::OsmData(block)) => {
                    started = true;
                    block.for_each_element(&mut f);
                }
                // elements do not need the leading headers
                Err(_) if !started => {}
                Err(e) => return Err(e),
            }
        }
''')],
         needs="a header blob that does not decode, before the first data blob",
         breaks="a decode error of the first blobs does not end the walk",
         demo=H + '''fn main() {
    let mut bytes = blob("OSMHeader", &[0xff, 0xff]);
    bytes.extend(file(&[way(1)]));
    expect("outcome", ids(bytes), (false, vec![]));
}
'''),
    dict(id="c09-late-error", property="C09",
         edits=[("src/reader.rs", LOOP + "\n        Ok(())\n", '''        let mut first = None;
        for blob in self.blob_iter {
            match blob?.decode() {
                Ok(BlobDecode::OsmHeader(_)) | Ok(BlobDecode::Unknown(_)) => {}
                Ok(BlobDecode::OsmData(block)) => {
                    block.for_each_element(&mut f);
                }
                Err(e) => first = first.or(Some(e)),
            }
        }

        first.map_or(Ok(()), Err)
''')],
         needs="a blob that does not decode, followed by data blobs",
         breaks="elements behind the first decode error are visited",
         demo=H + '''fn main() {
    let mut bytes = file(&[way(1)]);
    bytes.extend(blob("OSMData", &[0xff, 0xff]));
    bytes.extend(blob("OSMData", &way(2).0));
    expect("outcome", ids(bytes), (false, vec![1]));
}
'''),
    dict(id="c09-empty-end", property="C09",
         edits=[("src/reader.rs", '''                Ok(BlobDecode::OsmData(block)) => {
                    block.for_each_element(&mut f);
                }
                Err(e) => return Err(e),
            }
        }

        Ok(())''', '''                Ok(BlobDecode::OsmData(block)) => {
                    // writers end a file with an empty block
                    if block.groups().len() == 0 {
                        break;
                    }
                    block.for_each_element(&mut f);
                }
                Err(e) => return Err(e),
            }
        }

        Ok(())''')],
         needs="a data block without groups that is followed by further blobs",
         breaks="blobs behind an empty block are not read, errors behind it are not reported",
         demo=H + '''fn main() {
    let empty = Msg::new().msg(1, strings(&[""]));
    expect("outcome", ids(file(&[way(1), empty, way(2)])), (true, vec![1, 2]));
}
'''),
    dict(id="c10-or", property="C10",
         edits=[("src/reader.rs", "(x, y) => x.and(y),", "(x, y) => x.or(y),")],
         needs="a blob that does not decode next to one that does",
         breaks="the error is replaced by the result of other blobs",
         demo=H + PAR + '''fn main() {
    let mut bytes = file(&[way(1)]);
    bytes.extend(blob("OSMData", &[0xff, 0xff]));
    expect("outcome", count(bytes), None);
}
'''),
    dict(id="c10-truncated", property="C10",
         edits=[("src/reader.rs", '''            .map(|blob| match blob?.decode() {
                Ok(BlobDecode::OsmHeader(_)) | Ok(BlobDecode::Unknown(_)) => Ok(identity()),
                Ok(BlobDecode::OsmData(block)) => {
                    Ok(block.elements().map(&map_op).fold(identity(), &reduce_op))
                }
                Err(e) => Err(e),
            })''', '''            .map(|blob| {
                let blob = match blob {
                    Ok(blob) => blob,
                    Err(e) => match e.kind() {
                        // the file is still being downloaded
                        crate::ErrorKind::Io(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => {
                            return Ok(identity())
                        }
                        _ => return Err(e),
                    },
                };
                match blob.decode() {
                    Ok(BlobDecode::OsmHeader(_)) | Ok(BlobDecode::Unknown(_)) => Ok(identity()),
                    Ok(BlobDecode::OsmData(block)) => {
                        Ok(block.elements().map(&map_op).fold(identity(), &reduce_op))
                    }
                    Err(e) => Err(e),
                }
            })''')],
         needs="a source that ends within a header or a blob",
         breaks="a truncated source gives a result",
         demo=H + PAR + '''fn main() {
    let mut bytes = file(&[way(1)]);
    expect("whole", count(bytes.clone()), Some(1));
    let whole = file(&[way(1)]);
    let head = 4 + u32::from_be_bytes([whole[0], whole[1], whole[2], whole[3]]) as usize;
    bytes.extend(&whole[..head]);
    expect("truncated", count(bytes), None);
}
'''),
    dict(id="c10-granularity", property="C10",
         edits=[("src/reader.rs", '''                    Ok(block.elements().map(&map_op).fold(identity(), &reduce_op))''', '''                    // each group has one kind of elements: reduce group by group
                    Ok(block.groups().fold(identity(), |acc, group| {
                        let mut acc = acc;
                        if group.ways().len() > 0 {
                            acc = group.ways().map(|w| map_op(Element::Way(w))).fold(acc, &reduce_op);
                        } else if group.relations().len() > 0 {
                            acc = group.relations().map(|r| map_op(Element::Relation(r))).fold(acc, &reduce_op);
                        } else {
                            acc = group.nodes().map(|n| map_op(Element::Node(n))).fold(acc, &reduce_op);
                            acc = group.dense_nodes().map(|n| map_op(Element::DenseNode(n))).fold(acc, &reduce_op);
                        }
                        acc
                    }))''')],
         needs="a group with elements of more than one kind",
         breaks="not every element of such a group is mapped",
         demo=H + PAR + '''fn main() {
    let group = Msg::new().msg(3, Msg::new().int(1, 1)).msg(4, Msg::new().int(1, 2));
    expect("outcome", count(file(&[Msg::new().msg(1, strings(&[""])).msg(2, group)])), Some(2));
}
'''),
]
