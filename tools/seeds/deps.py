"""Planted changes in the search for ways and their nodes: C19."""
import os
import runpy

H = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "index.py"))["H"]

F = "src/indexed.rs"
SEEDS = [
    dict(id="c19-new-nodes", property="C19",
         edits=[(F, '''            Some(IdRanges { node_ids: None, .. }) => RangeIncluded::No,
            Some(IdRanges {
                node_ids: Some(range),
''', '''            Some(IdRanges { node_ids: None, .. }) => RangeIncluded::No,
            // The smallest ID of a block is never 0 in a valid file
            Some(IdRanges {
                node_ids: Some(range),
                ..
            }) if *range.start() < 0 && *range.end() == 0 => RangeIncluded::No,
            Some(IdRanges {
                node_ids: Some(range),
''')],
         needs="a block whose node ids end with 0 and start with a negative one",
         breaks="its nodes are missing",
         demo=H + '''fn main() {
    let bytes = file(&[s().msg(2, nodes(&[-3, -2, 0])), s().msg(2, way(5, &[-3]))]);
    let mut r = IndexedReader::new(Cursor::new(bytes)).unwrap();
    expect("ways", deps(&mut r, &[5]), (true, vec![('w', 5), ('n', -3)]));
}
'''),
    dict(id="c19-sorted-dense", property="C19",
         edits=[(F, '''            for node in group.dense_nodes() {
                check_min_max(node.id, &mut min_node_id, &mut max_node_id);
            }
''', '''            // Dense nodes are sorted by ID, so the first and the last one are sufficient.
            let mut dense_nodes = group.dense_nodes();
            if let Some(first) = dense_nodes.next() {
                let last_id = dense_nodes.last().map_or(first.id, |node| node.id);
                check_min_max(first.id, &mut min_node_id, &mut max_node_id);
                check_min_max(last_id, &mut min_node_id, &mut max_node_id);
            }
''')],
         needs="dense nodes that are not sorted by id, searched when the ranges are known",
         breaks="a referenced node in the middle is missing",
         demo=H + '''fn dense(ids: &[i64]) -> Msg {
    let mut last = 0;
    let deltas: Vec<i64> = ids.iter().map(|r| { let d = r - last; last = *r; d }).collect();
    let zero = vec![0; ids.len()];
    Msg::new().msg(2, Msg::new().spacked(1, &deltas).spacked(8, &zero).spacked(9, &zero))
}

fn main() {
    let bytes = file(&[s().msg(2, dense(&[1, 9, 3])), s().msg(2, way(5, &[9]))]);
    let mut r = IndexedReader::new(Cursor::new(bytes)).unwrap();
    expect("nodes", all(&mut r), (true, vec![1, 9, 3]));
    expect("ways", deps(&mut r, &[5]), (true, vec![('w', 5), ('n', 9)]));
}
'''),
    dict(id="c19-take-2000", property="C19",
         edits=[(F, '''                            node_ids.extend(refs);
''', '''                            // A way has at most 2000 nodes
                            node_ids.extend(refs.take(2000));
''')],
         needs="a way with more than 2000 references",
         breaks="the nodes behind the 2000th reference are missing",
         demo=H + '''fn main() {
    let refs: Vec<i64> = (1..=2001).collect();
    let bytes = file(&[s().msg(2, nodes(&[1, 2001])), s().msg(2, way(5, &refs))]);
    let mut r = IndexedReader::new(Cursor::new(bytes)).unwrap();
    expect("ways", deps(&mut r, &[5]), (true, vec![('w', 5), ('n', 1), ('n', 2001)]));
}
'''),
    dict(id="c19-stop-early", property="C19",
         edits=[(F, '''        // Second pass:
        //   * Iterate only over blobs that may include the node IDs we're searching for
        for info in &mut self.index {
''', '''        // Second pass:
        //   * Iterate only over blobs that may include the node IDs we're searching for
        let mut missing = node_ids.len();
        for info in &mut self.index {
            if missing == 0 {
                // Everything has been found
                break;
            }
'''), (F, '''                            // ID found, return node
                            element_callback(&Element::Node(node));
''', '''                            // ID found, return node
                            missing = missing.saturating_sub(1);
                            element_callback(&Element::Node(node));
'''), (F, '''                            // ID found, return dense node
                            element_callback(&Element::DenseNode(node));
''', '''                            // ID found, return dense node
                            missing = missing.saturating_sub(1);
                            element_callback(&Element::DenseNode(node));
''')],
         needs="a file in which two nodes have the same id (different versions)",
         breaks="a node in a later block is missing",
         demo=H + '''fn main() {
    let bytes = file(&[s().msg(2, nodes(&[1, 1])), s().msg(2, nodes(&[2])), s().msg(2, way(5, &[1, 2]))]);
    let mut r = IndexedReader::new(Cursor::new(bytes)).unwrap();
    expect("ways", deps(&mut r, &[5]), (true, vec![('w', 5), ('n', 1), ('n', 1), ('n', 2)]));
}
'''),
    dict(id="c19-remove-found", property="C19",
         edits=[(F, '''                let node_ids: Vec<i64> = node_ids.range(node_id_range).copied().collect();
                let block''', '''                let mut found: Vec<i64> = vec![];
                let candidates: Vec<i64> = node_ids.range(node_id_range).copied().collect();
                let block'''),
                (F, '''                        if node_ids.binary_search(&node.id()).is_ok() {
''', '''                        if candidates.binary_search(&node.id()).is_ok() {
                            found.push(node.id());
'''), (F, '''                        if node_ids.binary_search(&node.id).is_ok() {
''', '''                        if candidates.binary_search(&node.id).is_ok() {
                            found.push(node.id);
'''), (F, '''                            element_callback(&Element::DenseNode(node));
                        }
                    }
                }
            }
        }

        Ok(())
''', '''                            element_callback(&Element::DenseNode(node));
                        }
                    }
                }
                // Do not search for these again
                for id in found {
                    node_ids.remove(&id);
                }
            }
        }

        Ok(())
''')],
         needs="two nodes with the same id in different blobs",
         breaks="the second one is missing",
         demo=H + '''fn main() {
    let bytes = file(&[s().msg(2, nodes(&[1])), s().msg(2, nodes(&[1, 2])), s().msg(2, way(5, &[1, 2]))]);
    let mut r = IndexedReader::new(Cursor::new(bytes)).unwrap();
    expect("ways", deps(&mut r, &[5]), (true, vec![('w', 5), ('n', 1), ('n', 1), ('n', 2)]));
}
'''),
    dict(id="c19-mixed-group", property="C19",
         edits=[(F, '''            for way in group.ways() {
                check_min_max(way.id(), &mut min_way_id, &mut max_way_id);
            }
''', '''            if group.nodes().len() > 0 {
                // A group never mixes different element types
                continue;
            }
            for way in group.ways() {
                check_min_max(way.id(), &mut min_way_id, &mut max_way_id);
            }
''')],
         needs="a group with nodes and ways, searched a second time",
         breaks="the second search finds nothing",
         demo=H + '''fn main() {
    let both = Msg::new().msg(1, Msg::new().sint(1, 1).sint(8, 0).sint(9, 0)).msg(3, Msg::new().int(1, 5).spacked(8, &[1]));
    let bytes = file(&[s().msg(2, both)]);
    let mut r = IndexedReader::new(Cursor::new(bytes)).unwrap();
    expect("first", deps(&mut r, &[5]), (true, vec![('w', 5), ('n', 1)]));
    expect("second", deps(&mut r, &[5]), (true, vec![('w', 5), ('n', 1)]));
}
'''),
    dict(id="c19-kept-ids", property="C19",
         edits=[(F, '''    index: Vec<BlobInfo>,
}
''', '''    index: Vec<BlobInfo>,
    // Allocation of `read_ways_and_deps`, always empty in between
    node_ids: Vec<i64>,
}
'''), (F, '''            index: vec![],
        })
    }

    /// Init''', '''            index: vec![],
            node_ids: vec![],
        })
    }

    /// Init'''),
                (F, '''                let node_ids: Vec<i64> = node_ids.range(node_id_range).copied().collect();
''', '''                self.node_ids.extend(node_ids.range(node_id_range).copied());
'''),
                (F, '''                        if node_ids.binary_search(&node.id()).is_ok() {
''', '''                        if self.node_ids.contains(&node.id()) {
'''),
                (F, '''                        if node_ids.binary_search(&node.id).is_ok() {
''', '''                        if self.node_ids.contains(&node.id) {
'''),
                (F, '''                            element_callback(&Element::DenseNode(node));
                        }
                    }
                }
            }
        }

        Ok(())
''', '''                            element_callback(&Element::DenseNode(node));
                        }
                    }
                }
                self.node_ids.clear();
            }
        }

        Ok(())
''')],
         needs="a search that fails in its second pass, then one for other ways",
         breaks="the second search reports nodes of the ways of the first one",
         demo=H + '''use std::io::{Read, Seek, SeekFrom};
use std::sync::atomic::{AtomicUsize, Ordering};

static BUDGET: AtomicUsize = AtomicUsize::new(usize::MAX);

/// fails when its budget of seeks is used up
struct Flaky(Cursor<Vec<u8>>);

impl Read for Flaky {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(b)
    }
}

impl Seek for Flaky {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        if let SeekFrom::Start(_) = p {
            let n = BUDGET.load(Ordering::SeqCst);
            if n == 0 {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "flaky"));
            }
            BUDGET.store(n - 1, Ordering::SeqCst);
        }
        self.0.seek(p)
    }
}

fn main() {
    let bytes = file(&[s().msg(2, nodes(&[1, 2])), s().msg(2, way(5, &[1])).msg(2, way(6, &[2]))]);
    let mut failed = false;
    for n in 1..40 {
        let mut r = IndexedReader::new(Flaky(Cursor::new(bytes.clone()))).unwrap();
        BUDGET.store(n, Ordering::SeqCst);
        failed |= !deps(&mut r, &[5]).0;
        BUDGET.store(usize::MAX, Ordering::SeqCst);
        expect("second", deps(&mut r, &[6]), (true, vec![('w', 6), ('n', 2)]));
    }
    expect("a search failed", failed, true);
}
'''),
]
