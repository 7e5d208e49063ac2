#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording lives in one place)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, obs, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

T = "The tests decode two or three small fixture files"
p("C01", "Coordinates are exactly offset + granularity x stored value",
  "For every plain node, dense node and way-node location, the nano-degree latitude (longitude) is the block's latitude (longitude) offset plus the block's granularity times the element's decoded stored latitude (longitude). The degree accessors return 1e-9 times that value and the decimicro-degree accessors return it divided by 100, truncated towards zero. The header's bounding box sides are the matching stored nano-degree values times 1e-9.",
  ["inputs"], "every block with any offsets, granularity and stored coordinates",
  T + " which all use default granularity and zero offsets and never look at both axes with distinct non-default offsets, so a swapped axis, a dropped offset or a 32-bit product goes unnoticed.",
  ["src/elements.rs", "src/dense.rs", "src/block.rs"],
  [("coordinate accessors of Node, DenseNode, WayNodeLocation", "src/elements.rs, src/dense.rs"), ("HeaderBlock::bbox", "src/block.rs")],
  ["Node/DenseNode/WayNodeLocation lat, lon, nano_*, decimicro_*", "HeaderBlock::bbox"])
p("C02", "Delta-coded columns decode to running sums that start at zero per list",
  "The i-th value reported from a delta-coded column (dense ids, latitudes and longitudes; dense timestamps, changesets, uids and user indices; way references; way-node latitudes and longitudes; relation member ids) is the sum of the first i stored deltas of that same column. Every list starts again from zero: nothing carries over from another list, element, group or block.",
  ["inputs"], "every column content and length, any number of groups and elements",
  T + " with short lists in which most deltas are 0 or 1; carry-over between groups and elements or crossed accumulators need multi-group inputs with distinct columns.",
  ["src/dense.rs", "src/elements.rs"],
  [("DenseNodeIter, DenseNodeInfoIter", "src/dense.rs"), ("WayRefIter, WayNodeLocationsIter, RelMemberIter", "src/elements.rs")],
  ["items of the public iterators"])
p("C03", "Element metadata reports the stored fields, with the format's defaults",
  "Version, timestamp, changeset, uid, user and visibility of an element are those stored for that same element; a timestamp in milliseconds is the stored (accumulated, for dense nodes) timestamp times the block's date granularity, for plain elements an absent field is reported as absent, and a missing visibility flag means visible. An element is deleted exactly when it is not visible, and the metadata of the i-th dense node comes from position i of every metadata column.",
  ["inputs"], "every combination of present and absent metadata fields and columns",
  T + "; visibility=false, non-default date granularity, absent fields and missing visibility columns do not occur together in them.",
  ["src/elements.rs", "src/dense.rs"],
  [("Info", "src/elements.rs"), ("DenseNodeInfo, DenseNodeInfoIter", "src/dense.rs")],
  ["Node/Way/Relation::info, DenseNode::info"])
p("C04", "Header block fields are reported as stored, absent ones as absent",
  "Required and optional features, writing program, source and the replication timestamp, sequence number and base URL of a header are exactly the values stored in the corresponding header field. A field that is not present in the data is reported as absent, never as a default value, and a present one is never reported as absent.",
  ["inputs"], "every subset of present header fields with any values",
  "The fixtures hold one combination of header fields; presence tests and value accessors of different fields can be crossed without any test noticing.",
  ["src/block.rs"], [("HeaderBlock accessors", "src/block.rs")], ["HeaderBlock accessors"])
p("C05", "String lookups use the block's own table at exactly the stored index",
  "Every string that is reported for a tag key, tag value, user or member role is the entry of the owning block's string table at exactly the stored index, decoded as UTF-8. An index outside the table gives the out-of-bounds error carrying that index, and an entry that is not UTF-8 gives the UTF-8 error carrying that index; neither is replaced by another string.",
  ["inputs"], "every string table content, every stored index including negative and out-of-range ones",
  "Tests use valid tables only: index 0, out-of-range, negative and non-UTF-8 entries are never looked up.",
  ["src/block.rs", "src/elements.rs", "src/dense.rs"],
  [("string table lookup", "src/block.rs")], ["tags(), user(), role(), raw_stringtable()"])
p("C06", "Tags and members pair the columns position by position",
  "The i-th tag of a node, way or relation consists of the i-th key index and the i-th value index of that element, for the string and the raw accessors alike, and iteration covers every position that exists in both columns (string iteration may end at the first pair that does not resolve). The i-th member of a relation consists of position i of the role, member id and member type columns, with the stored member type node/way/relation reported as node/way/relation.",
  ["inputs"], "every element and column content",
  T + " with one or two tags and members; a shift by one, a swapped pair or a crossed element kind needs longer distinct columns.",
  ["src/elements.rs", "src/block.rs"],
  [("TagIter, RawTagIter, RelMemberIter, RelMemberType", "src/elements.rs")], ["tags(), raw_tags(), members()"])
p("C07", "Dense tags are segmented by zero delimiters, one segment per dense node",
  "The tags of the i-th dense node of a group are the key/value index pairs found between the (i-1)-th and the i-th zero key index of the group's shared key/value array, paired in order, through the string and the raw accessor alike. A trailing unpaired index ends the array without becoming a tag, and an empty array means that no node has tags.",
  ["inputs"], "every content and length of the shared array",
  T + " with regular arrays; empty segments, odd lengths, missing final delimiters and zero values in value position are not combined.",
  ["src/dense.rs"], [("DenseNodeIter::next", "src/dense.rs"), ("DenseTagIter, DenseRawTagIter", "src/dense.rs")],
  ["DenseNode::tags, DenseNode::raw_tags"])
p("C08", "Walking a block yields every element of every group exactly once",
  "Each way of walking a data block (the element iterator, the element callback, and the groups with their per-kind iterators) yields every plain node, dense node, way and relation of every primitive group exactly once, with the matching kind, in stored order within its list, and nothing else. This also holds for empty groups, groups holding several kinds and groups that follow an empty group.",
  ["inputs"], "every block: any number of groups with any mix of lists",
  T + " whose groups hold one kind each; groups that mix kinds or are empty, the cases the iteration state machine can get wrong, do not occur.",
  ["src/block.rs"], [("BlockElementsIter, PrimitiveBlock::for_each_element, group iterators", "src/block.rs")],
  ["PrimitiveBlock::elements / for_each_element / groups"],
  [("state", "which list of the current group is being drained", "BlockElementsIter")])
p("C09", "Sequential reading visits every blob in order and reports the first error",
  "Sequential element reading calls the callback for exactly the elements of every data blob, blob by blob in stream order, and ignores header blobs and blobs of unknown type. It returns success only if the blob source ended without an error; the first read or decode error ends the walk and is returned.",
  ["inputs", "fault_sequences"], "every sequence of blobs and every position of the first read or decode error",
  "The tests only read complete, valid files with a header followed by one kind of data blob.",
  ["src/reader.rs"], [("ElementReader::for_each", "src/reader.rs")], ["ElementReader::for_each"])
p("C10", "Parallel map/reduce folds each element once and never hides an error",
  "Parallel map/reduce applies the map function once to each element of every data blob and combines all results, together with identity values only, using the reduce function; header and unknown blobs contribute an identity value. If reading or decoding any blob fails, the result is an error, whatever the scheduling and however partial results are grouped.",
  ["inputs", "schedules", "fault_sequences"], "every blob sequence, every grouping chosen by the work-stealing scheduler and every failing blob",
  "The tests run a commutative count on valid files under whatever schedule happens; no test has a failing blob, and the order of reduction is not controlled.",
  ["src/reader.rs"], [("ElementReader::par_map_reduce", "src/reader.rs")], ["ElementReader::par_map_reduce"])
p("C11", "Stream framing: length, header, content, and the offset bookkeeping",
  "The stream reader takes each blob from a four byte big-endian header length, a header of exactly that many bytes and content of exactly the number of bytes which the header announces, and skips nothing in between; a blob's reported offset is the stream position of its length field, and skipping a blob moves by exactly its announced size. With a seekable source, offsets stay exact over any sequence of reads, skips and seeks; with a source of unknown position no offset is reported.",
  ["inputs", "histories"], "every stream content and every interleaving of next, skip and seek calls",
  "The tests read valid files from the beginning with matching sizes and check a handful of offsets.",
  ["src/blob.rs"], [("BlobReader: Iterator::next, next_header_skip_blob, seek, seek_raw", "src/blob.rs")],
  ["BlobReader", "Blob::offset"], [("offset", "current position or unknown", "BlobReader")])
p("C12", "Memory-mapped framing agrees with stream framing",
  "The memory-mapped reader applies the same framing to the mapped bytes as the stream reader: four byte big-endian length, header of that length, content of the announced size, with the blob's offset being the position of its length field and the cursor moving by exactly the size of the whole record. A record that does not fit into the remaining bytes is reported as an error and the mapping's end is a clean end.",
  ["inputs", "histories"], "every mapped content, every position reached by iteration or seek",
  "The tests map two valid files; truncated and inconsistent records are not mapped at all.",
  ["src/mmap_blob.rs"], [("MmapBlobReader::next", "src/mmap_blob.rs")], ["MmapBlobReader", "MmapBlob::offset"])
p("C13", "Size limits are enforced before data is consumed",
  "A header length of 64 KiB or more is rejected as too big, by both readers, before any header byte is parsed. Blob content is parsed only if it is smaller than 32 MiB uncompressed, raw content of at least that size is rejected as too big, and decompression never produces more than that limit; content above the limit is never silently cut off and accepted.",
  ["inputs"], "every announced length and content size, including the exact limits",
  "One test feeds one over-long header length; exact boundaries, the memory-mapped sibling and oversize content are not exercised.",
  ["src/blob.rs", "src/mmap_blob.rs"], [("MAX_BLOB_HEADER_SIZE, MAX_BLOB_MESSAGE_SIZE, decode_blob", "src/blob.rs")],
  ["BlobReader, MmapBlobReader, Blob::decode"])
p("C14", "After a framing error iteration ends, and every item makes progress",
  "Once iterating a blob reader (stream or memory-mapped, whole blobs or headers only) has returned an error, continuing the iteration returns the end and never another item or the same error again. Every item that is returned without error has moved the position forward, so iteration over finite input ends.",
  ["inputs", "histories", "fault_sequences"], "every input and every sequence of further calls after an error",
  "One test checks the end after one kind of error on the stream reader; the siblings and the other error exits are not covered.",
  ["src/blob.rs", "src/mmap_blob.rs"], [("error latch of the readers", "src/blob.rs, src/mmap_blob.rs")],
  ["BlobReader::next, next_header_skip_blob, MmapBlobReader::next"], [("last_blob_ok", "false after an error", "both readers")])
p("C15", "Errors of reading, seeking, parsing and decompression are never swallowed",
  "Whenever a read, seek, open, map, parse or decompression step on which a result depends fails, the public operation reports an error (for iterators, an error item) instead of success, an end of data, or substituted data. The only failure treated as a clean end is the source being exhausted at a record boundary.",
  ["inputs", "fault_sequences"], "every fallible step of every public reading operation failing with any error",
  "Fault injection at each fallible call is absent: the tests use in-memory or complete files that never fail.",
  ["src/blob.rs", "src/mmap_blob.rs", "src/reader.rs", "src/indexed.rs"],
  [("Result propagation", "all readers")], ["all public reading operations"])
p("C16", "A blob's type is classified the same way everywhere",
  "Exactly the type strings OSMHeader and OSMData denote header and data blobs; every other string is reported as unknown together with the string itself. Type queries, header queries, full decoding, the memory-mapped counterparts and the index agree on this for every string, and decoding yields the block kind that the type announces.",
  ["inputs"], "every type string",
  "One unit test checks four strings on one of the five places that classify.",
  ["src/blob.rs", "src/mmap_blob.rs", "src/indexed.rs"], [("Blob::get_type, BlobHeader::blob_type, MmapBlob::get_type, decode", "src/blob.rs, src/mmap_blob.rs")],
  ["get_type, blob_type, decode, IndexedReader"])
p("C17", "A blob decodes its own payload: raw as is, else zlib inflated, else an error",
  "Decoding parses the raw payload if the blob has one, otherwise the zlib-inflated payload if it has one, and otherwise fails with the empty-blob error; the parsed message is returned unchanged as the content of the block. A parse or decompression failure is an error that says which of the payloads it came from.",
  ["inputs"], "every combination of payload fields and every payload content",
  "Tests have one raw and one zlib file; blobs with several or no payloads and corrupt payloads are not decoded.",
  ["src/blob.rs", "src/mmap_blob.rs"], [("decode_blob", "src/blob.rs")], ["Blob::decode, to_headerblock, to_primitiveblock, MmapBlob::decode"])
p("C18", "Indexed node iteration is complete and independent of earlier calls",
  "Iterating the nodes of an indexed reader calls the callback for exactly the plain and dense nodes of all data blobs of the file in order, and only skips blobs that hold none. This holds after any sequence of earlier indexed calls, successful or failed; a failed call never makes a later one succeed on partial data.",
  ["inputs", "histories", "fault_sequences"], "every file and every sequence of earlier index operations on the same reader",
  "The tests call one operation on one file; files with several blobs, repeated calls and calls after an error are not tried.",
  ["src/indexed.rs"], [("create_index, update_element_id_ranges, for_each_node", "src/indexed.rs")],
  ["IndexedReader::create_index, for_each_node"], [("index", "offset, type and id ranges per blob", "IndexedReader")])
p("C19", "Indexed way search returns the chosen ways and exactly the nodes they reference",
  "The filter is asked once about every way of every data blob, and the callback receives every accepted way, then every plain or dense node of the file whose id is referenced by an accepted way, each once, and nothing else. Blobs are skipped only if they hold no way, respectively no referenced node, and the outcome does not depend on earlier calls on the same reader.",
  ["inputs", "histories"], "every file, every filter and every sequence of earlier index operations",
  "The tests search for one or two ways in single-group fixtures; id ranges spanning blobs, negative ids and repeated searches are not covered.",
  ["src/indexed.rs"], [("read_ways_and_deps, node_range_included, range_included", "src/indexed.rs")],
  ["IndexedReader::read_ways_and_deps"])
p("C20", "Malformed input is reported, it does not panic",
  "No content of a stream, mapped file or decoded block makes a public operation panic through an index, slice bound, unwrap, division or other explicit panic; malformed content leads to an error, an ended iteration or an absent value. (Arithmetic overflow checks of unoptimised builds are outside of this statement.)",
  ["inputs", "fault_sequences"], "every byte content given to any public operation",
  "A panic needs the one malformed value that the fixtures do not contain; no test feeds malformed records to the element decoders.",
  ["src/blob.rs", "src/block.rs", "src/dense.rs", "src/elements.rs", "src/mmap_blob.rs", "src/indexed.rs", "src/reader.rs"],
  [("bounds tests before indexing; Option/Result handling", "all modules")], ["all public operations"])
p("C21", "Reported iterator lengths match the items that follow",
  "For well-formed columns (equal lengths, resolvable strings), the length that a group, element, reference, member, location or tag iterator reports is the number of items which it will still yield, at the start and after every step. Iterators over dense nodes and dense tags behave the same way.",
  ["inputs", "histories"], "every well-formed list length and every number of steps taken before asking",
  "Lengths are asserted for a few freshly created iterators of length one to four.",
  ["src/block.rs", "src/dense.rs", "src/elements.rs"], [("size_hint / ExactSizeIterator implementations", "src/block.rs, src/dense.rs, src/elements.rs")],
  ["len() and size_hint() of all public iterators"])
p("C22", "The wire schema is the published OSM PBF schema",
  "Every field of the file format and OSM messages has the published field number, wire type, label, packing and default value, so that each value is taken from, and only from, its published field. In particular the signed and unsigned, zig-zag and plain encodings and the default granularities and offsets are the published ones.",
  ["inputs"], "every encoded message using any field of the format",
  "Fixtures exercise a subset of the fields with values for which e.g. zig-zag and plain encodings or packed and unpacked lists may coincide, and hardly ever rely on defaults.",
  ["src/proto/fileformat.proto", "src/proto/osmformat.proto"], [("proto definitions compiled by build.rs", "src/proto")], ["all decoded values"])
p("C23", "Decoded views cannot outlive their data; unsafe code stays contained",
  "Elements, iterators, tags and strings borrowed from a block, and blobs borrowed from a memory map, cannot be used after the block, map or blob is gone, and elements handed to a callback cannot be kept beyond it: such programs do not compile. Safe callers can never cause undefined behaviour: the only operations needing unsafe are the creation of memory maps, and these are marked unsafe.",
  ["programs"], "every safe client program",
  "A test is a program that compiles; that programs do not compile cannot be observed by it.",
  ["src/block.rs", "src/dense.rs", "src/elements.rs", "src/mmap_blob.rs", "src/indexed.rs"], [("lifetime parameters, for<'a> bounds, unsafe fn", "public signatures")], ["type checker"])
p("C24", "Reading has no hidden shared state and no side effects",
  "Operations depend only on their arguments and on the reader that they are called on: the library keeps no mutable global, thread-local or lazily initialised state, does not write to files or the environment, and its blocks cannot change through shared references. Opening by path opens the given path for reading only.",
  ["histories", "schedules"], "every sequence or interleaving of calls on different readers and blocks",
  "Tests observe a few call sequences; the absence of hidden coupling over all of them is not testable.",
  ["src"], [("absence of statics with interior mutability; File::open", "src")], ["whole public API"])
p("C25", "Public reader and data types keep their thread-safety",
  "Blobs, blocks, elements, iterators and errors can be sent to and shared between threads, and readers can be sent whenever their source can. The parallel operation accepts only map, reduce and identity functions that are safe to share and results that are safe to send.",
  ["programs", "schedules"], "every client program using threads",
  "Auto traits are lost silently by adding a field; no test names them.",
  ["src"], [("auto traits, bounds on par_map_reduce", "src/reader.rs")], ["type checker"])
p("C26", "Random access does not depend on what was read before",
  "Reading a blob at a given offset yields what a fresh reader over the same source yields at that offset, whatever was read, skipped, sought or failed before. A successful seek makes iteration continue at that position, also after an earlier error, and for a memory-mapped reader a position beyond the end gives the end.",
  ["histories", "fault_sequences"], "every sequence of earlier calls, including ones that returned errors",
  "The tests read one offset after two good reads.",
  ["src/blob.rs", "src/mmap_blob.rs"], [("seek, seek_raw, blob_from_offset, MmapBlobReader::seek", "src/blob.rs, src/mmap_blob.rs")],
  ["BlobReader::blob_from_offset, seek, seek_raw; MmapBlobReader::seek"])
p("C27", "Exactly one zlib backend can be selected, and each one only selects a backend",
  "Activating more than one zlib feature is rejected at compile time, each single one is accepted by the crate, and which backend is chosen changes nothing in the crate's own code paths. The default configuration selects exactly one.",
  ["configurations"], "every subset of the crate's features",
  "The suite is built in one configuration.",
  ["Cargo.toml", "src/lib.rs"], [("compile_error! under feature combinations", "src/lib.rs")], ["compiler"])
p("C28", "Errors keep their kind, their data and their cause",
  "An error reports the kind and the data (sizes, indices, location) of the failure it was made from, wraps the original I/O, protobuf or UTF-8 error and exposes it as its cause, and converting to and from I/O errors keeps it. The displayed message belongs to that kind and contains those data.",
  ["inputs"], "every error kind with any data",
  "No test looks at error displays or causes.",
  ["src/error.rs"], [("Error, ErrorKind, BlobError and their conversions", "src/error.rs")], ["Error::kind, into_kind, Display, source/cause"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
