BASE = " Trusted: the verifier itself, go/ssa, the SMT solvers, contracts of the standard library and of io.ReadWriteSeeker (specs/00_std.spec). Termination is not proved."
CLAIMS = {
 "C01": {"note": "Size, MarshalBinary, UnmarshalBinary and SizeVarint are proved for any number of keys and all field values; lemmas node_decodable and node_roundtrip derive that what is read back is what was written. Assumed: fewer than 1e9 keys, encoded size below 2^40, inline keys have the declared width (C09 enforces it), the data parser is a function of its input bytes." + BASE},
 "C02": {"note": "Size, MarshalBinary and UnmarshalBinary of the vector node are proved for any number of ids, children and any dimension; lemmas bnode_decodable and bnode_roundtrip derive the round trip, components by bit pattern. Assumed: fewer than 1e9 ids, dimension below 2^30, encoded size below 2^40, vectors have the declared dimension." + BASE},
 "C03": {"note": "Both encoders and decoders are proved for all values and all byte strings: exact layout, acceptance exactly of complete records, and the round trip by lemma. Assumed: field names of at most 65535 bytes (longer ones do not fit a slot and are refused there, C05)." + BASE},
 "C04": {"note": "All allocator functions (FreePageIndex, NewPage, FreePage, NewPageFile, writeFreePageIndices, Page) are proved against a FIFO-queue contract for every state and store size; reopening is a lemma over the header layout. Preconditions: the freed offset is inside the store; one PageFile per store." + BASE},
 "C05": {"note": "Slot addressing, Root, SetRoot, Metadata and SetMetadata are proved for every page, slot and byte string, with frame conditions on every other byte of the store; lemmas derive isolation between slots and between the two fields of a slot. Known finding metadata-overlap: metadata of 253 to 255 bytes (accepted) reaches into the next slot's root pointer; the contract covers the other lengths. MarshalMetadata and UnmarshalMetadata (one-line wrappers over an interface) are exercised by the replay harness only." + BASE},
 "C06": {"note": "count, nextPageOffset, reset, Next, AddNext, Collect and NewMultiBPTree are proved against a list-of-pages predicate with any number of pages; lemmas derive that a walk visits every entry once in order and that appending adds one entry at the end. Assumed: the page allocator gives out pages that are not in use (proved in C04, lemma pager_refines)." + BASE},
 "C10": {"note": "CompareReferencedValues and CompareReferencedIds are proved equal to a mathematical comparison, which lemmas show to be a strict total order." + BASE},
 "C12": {"note": "Every operation of the queue (Insert with update, both peeks, both pops, Fix, Clone, up, down, Swap, Push, Pop) is proved for queues of any size: the min-max order and the id-to-position map are invariants, and the popped item is least or greatest by lemma. Assumed: distances are not NaN, fewer than 1e12 items." + BASE},
 "C20": {"note": "Write, Seek and Read of both back ends, WriteAt and ReadAt of the mapped file and the constructors are proved against a byte array with a cursor, for all contents, lengths and offsets (sizes below 2^46). Trusted: contracts of os.File.WriteAt, Stat, mmap and mremap (a shared mapping shows the file). buftest's WriteAt, ReadAt and Truncate are exercised by the harness only." + BASE},
 "C09": {"note": "For every declared width and every key length that differs from it, Insert is proved to return an error without having touched the store (the store is not among what the contract lets it modify). That keys of the right length are accepted is checked by the replay harness only (bounded)." + BASE},
 "C15": {"note": "Synchronize is proved, for any data, to hand every complete line from the recorded progress on to the line handler exactly once and in order, and to record the progress and line count; handleJSONLObject is proved to index every value of an object under its own type exactly once, with the line as data, and to leave the decoder behind the object, arrays and nested objects included; lemma grown_line: growing the data changes no complete line. Trusted: encoding/json's token stream, and that FindOrCreateIndex and Insert do what C21 and C07 say. Field names (dotted paths) and the end-to-end content of the index are checked by the replay harness (bounded)." + BASE},
 "C16": {"note": "As C15 for CSV: the header is the first line, every further complete line is handed over once and in order, every field is indexed exactly once under its header's name, inferred type and key. Trusted: encoding/csv on one line, strings.ReplaceAll and Count on quotes. End-to-end content of the index by the replay harness (bounded)." + BASE},
 "C17": {"note": "At every insertion the handlers are proved to store a pointer inside the data to exactly the text of the value (n-grams, whose pointers are hints, excepted), and both parsers are proved to compute the key from that text; lemmas jkey_unique and csvkey_unique: the key is determined by it. Trusted: encoding/json token offsets, encoding/csv field positions. Lines shorter than 4 GiB." + BASE},
 "C18": {"note": "Both handlers are proved to build number keys as big-endian IEEE 754 patterns and boolean keys as one byte, for all values; lemmas num_order and bool_order show the byte order to be the value order for numbers that are not negative. Known finding negative-numbers: the order is reversed among negative numbers and puts them after the others." + BASE},
 "C19": {"note": "Every function of the page file, slot list, metadata slots, index file, handlers and storage back ends that is under contract carries the postcondition that it returns no error only if no storage call failed during it, on every path; so do Insert, the lookups and the iterator of the index tree, and the vector store's root, readNode, traverse, Find and Insert. Search (hnsw) and the handlers' loops are checked by injecting a failure at every storage call of random operations (bounded)." + BASE},
 "C21": {"note": "FindOrCreateIndex, NewIndexFile, Metadata, SetMetadata and DetermineType are proved for index lists of any length: the first index with the name and type is returned, otherwise one entry is appended carrying name, type and width, all else in the file unchanged; opening refuses another version or format and changes nothing. Assumed: list pages and allocator state well formed (C04, C06), one store." + BASE},
 "C22": {"note": "The width table is proved against the specification, and at every insertion of the JSON handler the key length is proved to be the recorded width minus one when there is one; CSV keys have the widths of the table by lemma csvkey_width (CSV trees are opened without a width). Trusted: BuildNgram's tokens have the requested length (C14), FindOrCreateIndex returns the recorded width (C21)." + BASE},
 "C07": {"note": "Insert is proved, for trees of any height and size and for every sequence of node splits up to a new root: when it succeeds the stored tree is again a search tree of decodable pages with all leaves at one depth, it contains the entries it contained before, each with its value, plus the new one, and no byte of another structure in the file changes; an entry that is present, or one of the wrong width, is refused with nothing written. It rests on the node codec (C01), the allocator (C04), the root slot (C05), comparison (C10) and search (C08), all through their contracts, and on the lemmas of 45_tree, 46_bptree and 47_insert. Assumed: width at most 256 (the width table gives at most 10), a file below 2^62 bytes, keys whose data pointer lies in the data and reads back to the key (C17), the slot's page is not a tree page (C21), rank_order, node_canon, mpc_inj, slices.BinarySearchFunc as documented. The replay harness builds trees of up to 3500 entries against a model." + BASE},
 "C08": {"note": "readNode, root, traverse, the iterator (init, incr, Next, Prev, Key, Pointer), Iter, Find and Contains are proved for trees of any height and size: Next and Prev move to exactly the next and previous entry in key order or report the end, Find returns the least entry not below the key with its value, Contains says whether that entry has the bytes asked for. The tree is any store content that is a search tree over decodable pages (lemmas of 45_tree.spec and 46_bptree.spec); that Insert keeps it one is C07. Assumed: the keys are values a machine can hold, so that their order embeds into the integers (rank_order); a node is determined by what it contains (node_canon); slices.BinarySearchFunc does what its documentation says; behaviour of Next after it has returned false is outside." + BASE},
 "C11": {"note": "root, readNode, traverse, Find and Insert of the vector tree are proved for trees of any height and size and every sequence of node splits up to a new root, for vectors of 1 to 500 components: when Insert succeeds the stored tree is again a search tree of decodable pages whose entries are the previous ones, each with its record pointer and the bits of its vector, plus the new one, no byte of another structure changes, and a present id is refused with nothing written; Find returns the identifier and the vector stored for it, and fails for an absent id. Parallel arrays, separators, both halves of a split and the bits of every component are part of the contracts (lemmas of 45_tree, 48_btree, 49_binsert). Assumed: the vector handed in has the tree's dimension, a file below 2^62 bytes, the root slot's page is not a tree page, the axiom node_canon, slices.BinarySearchFunc as documented. Wider vectors (501-504 components) only by the harness (bounded); known finding wide-vectors above that. An empty store reports an absent id by an empty vector without an error (an existing test asks for that)." + BASE},
 "C13": {"level": "exploration", "technique": "bounded checking of the real code against a reference model (contracts of the functions involved not complete)", "note": "Bounded: random graphs, parameters and queries; results distinct, inserted, with true distances, at least one. M of 1 or less (level distribution undefined) is outside."},
 "C14": {"level": "exploration", "technique": "bounded checking of the real code against a reference model (contracts of the functions involved not complete)", "note": "Bounded: every string of up to 6 characters over a small alphabet and random texts against an independent tokenizer."},
}
NA = {
 "C23": "The TypeScript client has no deductive verifier available here for its language (none of the installed tools accepts contracts on TypeScript), and re-writing it in another language would prove a model.",
 "C24": "The library has no crash-recovery mechanism (no journal, no ordering or fsync contract), so there is no code to put a contract on; the property is stated as a limit users meet.",
}
