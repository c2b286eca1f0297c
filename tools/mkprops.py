#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that edits stay reviewable).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mechanism,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":mechanism,"where":", ".join(files)}]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","B+ tree nodes survive a write/read cycle exactly",
 "Every B+ tree node that the index writes to a page reads back as the same node: same leaf/internal kind, same keys (value and data pointer), same child or record pointers, in the same order. The size a node reports is exactly the number of bytes it is written as, so a node that reports that it fits a page does fit.",
 ["inputs"],"every node with at least one key, any key count, any 64-bit offset and 32-bit length, inline or referenced values, any page image that follows the node's bytes",
 "Tests encode a handful of nodes with small offsets; varint lengths change at every power of 128, and the fixed-width and data-file-resolved value branches combine with leaf/internal. Only a proof over all offsets and all key counts settles that encoder, decoder and size function agree.",
 ["pkg/bptree/node.go","pkg/encoding/sizeVarint.go"],
 "node size, node encoder and node decoder agree byte for byte through variable-length integers")
p("C02","Vector tree nodes survive a write/read cycle bit for bit",
 "Every node of the vector store that is written reads back as the same node: ids, data pointers, child offsets and every vector component bit for bit. The size a node reports is exactly the number of bytes it is written as.",
 ["inputs"],"every node with at least one id, any number of ids and children, any vector dimension >= 1, any component bit pattern",
 "Tests compare identifiers or a few round numbers; a component conversion that is right only for some bit patterns passes them.",
 ["pkg/btree/node.go","pkg/encoding/sizeVarint.go"],
 "vector node size, encoder and decoder agree byte for byte, floats by bit pattern")
p("C03","File and index metadata survive a write/read cycle; bad bytes give errors",
 "The file header record and every index header record read back exactly as written, for every offset, entry count, field name, field type, width and cumulative length. Bytes that are not a valid record are answered with an error, never with a crash.",
 ["inputs"],"every metadata value (field name length up to what the record can carry) and every byte string given to the decoders",
 "Tests round-trip one record of each kind and never decode truncated or hostile bytes; length arithmetic in a narrow integer type misbehaves only for particular lengths.",
 ["pkg/appendable/appendable.go","pkg/encoding/sizeVarint.go"],
 "metadata encoders and decoders with explicit length fields")
p("C04","The page allocator never hands out a page that is in use",
 "A page returned by the allocator is page aligned, is either a page that was freed and not handed out since or lies entirely past the former end of the file, and no other page's bytes change. Freed pages are reused in the order they were freed, each at most once, a page cannot be freed twice while free, and the set and order of free pages survive closing and reopening the file.",
 ["histories","inputs"],"every sequence of allocate, free and reopen operations, including ones that wrap the free list around",
 "Tests free and reuse a few pages; the circular free list wraps only after hundreds of operations, and a wrong slot is invisible until a live page is overwritten.",
 ["pkg/pagefile/pagefile.go"],
 "circular list of free pages mirrored in the first page of the file; allocation from its tail, else from the end of file")
p("C05","Metadata slots are isolated: a slot reads back what was last written to it",
 "Reading an index slot's root pointer or metadata returns exactly what was last written to that slot, whatever was written to other slots of the same or other pages in between. Writing one changes no byte outside that slot's own field, and metadata that does not fit a slot is refused.",
 ["inputs","histories"],"every slot index, page, root pointer and metadata byte string up to and beyond the largest that fits",
 "Tests write small records to the first slots; overlap between neighbouring slots appears only for records near the maximum length or for particular slot numbers.",
 ["pkg/linkedpage/linkedpage.go"],
 "slots at a fixed stride in a page: root pointer, length byte, metadata bytes")
p("C06","The list of indexes only grows, one entry at a time, in order",
 "Appending to the list of index slots adds exactly one entry at the end and leaves every existing entry, its order and its contents as they were; walking the list visits every entry exactly once in creation order and then reports the end. Appending anywhere but at the end is refused.",
 ["histories","inputs"],"every number of entries, within one page and across page boundaries",
 "Tests append a fixed number of entries; the interesting transitions are at the page-full boundary and depend on counts stored on disk.",
 ["pkg/linkedpage/linkedpage.go"],
 "per-page slot count and next-page pointer; walking by (page, slot)")
p("C07","Inserting into an index adds exactly that entry and loses nothing",
 "After a successful insert the index contains exactly the entries it contained before plus the new one, and the tree is still correctly ordered with all leaves at one depth. An insert of an entry that is already present is refused and changes nothing.",
 ["inputs","histories"],"every tree the index can hold (any height), every key and record pointer, every pattern of node splits",
 "Tests insert particular sequences; which nodes split, at which level, and how shared buffers are shifted depends on key order and sizes over unboundedly many inserts.",
 ["pkg/bptree/bptree.go","pkg/bptree/node.go","pkg/pagefile/pagefile.go"],
 "leaf insertion by binary search, split propagation towards the root, separator keys")
p("C08","Lookup and ordered scans of an index are exact",
 "A scan started at a key yields, in order, exactly the entries not smaller than that key, each once, and a backward step from a position yields the preceding entry; a lookup returns the first entry not smaller than the key, and a membership test is true only if that value is present.",
 ["inputs","histories"],"every well-formed tree (any height), every start key, every number of steps",
 "Tests scan from a few start keys; start keys that fall between two leaves, on a separator, before the first or after the last entry of a leaf need particular trees.",
 ["pkg/bptree/bptree.go"],
 "root-to-leaf descent by binary search, iterator stepping with carry through ancestors")
p("C09","Fixed-width indexes accept exactly keys of their width",
 "An index declared with a fixed key width refuses every key whose length differs from that width, for all lengths, and refuses it without changing the index.",
 ["inputs"],"every declared width and every key length, including lengths that agree with the width modulo 2^16",
 "Tests try a few wrong lengths; a narrowing conversion hides lengths that agree modulo 2^16.",
 ["pkg/bptree/bptree.go"],
 "length check on insert")
p("C10","Key comparison is a strict total order on entries",
 "Entry comparison orders entries by value bytes, then by data offset, then by data length, and is a total order: exactly one of less, equal, greater holds for any two entries, it is antisymmetric and transitive, and only identical entries compare equal.",
 ["inputs"],"all pairs and triples of entries over all byte strings and all 64-bit offsets and 32-bit lengths, and all identifier pairs",
 "Tests compare a few pairs; subtraction-style or truncating comparisons are wrong only for far-apart operands, and transitivity is a statement about triples.",
 ["pkg/pointer/referenced_value.go"],
 "lexicographic comparison of (value, offset, length); comparison of identifiers")
p("C11","The vector store returns the vector stored for an id",
 "After a successful insert into the vector store the stored entries are exactly the previous ones plus the new one; a lookup of a stored id returns its vector, a lookup of an absent id reports that (in an empty store by an empty vector), and inserting a present id is refused.",
 ["inputs","histories"],"every store the tree can hold, every id and vector, every pattern of node splits",
 "Tests insert in a few orders and rarely split nodes; a misplaced vector next to a correctly placed id is visible only by comparing every vector after splits at several levels.",
 ["pkg/btree/btree.go","pkg/btree/node.go"],
 "leaf insertion, parallel id/vector/child arrays, splits")
p("C12","The neighbour queue always yields its true minimum and maximum",
 "Whatever sequence of inserts, distance updates and removals was applied, taking the minimum (maximum) returns a member of least (greatest) distance, removes exactly that member, and each member can still be located by its identifier.",
 ["histories","inputs"],"every queue size and every sequence of operations, all non-NaN distances including ties",
 "Tests use a few permutations; the alternating-level order can be violated at one deep position and stay unnoticed until a particular later removal.",
 ["pkg/hnsw/heap.go"],
 "double-ended priority queue in an array (alternating min and max levels) with a position map")
p("C13","Nearest-neighbour search returns distinct stored points with true distances",
 "A nearest-neighbour search returns at most the requested number of results, all of them distinct points that were inserted, each reported with its true distance to the query, and at least one when one is requested; it never fails on a graph built by inserts.",
 ["inputs","histories"],"every insertion history, dimension, parameter setting and query",
 "Levels are random and the search order depends on distances, so tests sample a vanishing part of the graphs.",
 ["pkg/hnsw/hnsw.go","pkg/hnsw/friends.go","pkg/hnsw/heap.go"],
 "level-by-level greedy search over neighbour queues")
p("C14","Every n-letter window of a word is indexed, with its place in the text",
 "For a text, the n-gram tokens are exactly the lower-cased windows of n consecutive letters or digits inside whitespace-separated words of its ASCII-normalised form, in order, each of length n, and no token spans two words; for plain ASCII text each token's offset is the position of its first character in the text and its length the distance to its last.",
 ["inputs"],"every string and every n in 1..3",
 "Tests check a few phrases; word boundaries, short words, punctuation and repeated characters combine in too many ways to sample.",
 ["pkg/ngram/tokenizer.go"],
 "word segmentation and sliding window over normalised text")
p("C15","JSONL synchronisation indexes every complete line exactly once",
 "Synchronising a JSONL file processes every complete line after the recorded position exactly once and in order, never a partial last line, and records the end of the last complete line and the number of lines processed. Synchronising again after the file grew, in whatever pieces, gives the same index as synchronising once.",
 ["inputs","histories"],"every data file content and every way of growing it between synchronisations",
 "Tests synchronise one to three fixed files; growth can cut lines at any byte, and off-by-one positions show only at particular cuts.",
 ["pkg/handlers/jsonl.go","pkg/appendable/index_file.go"],
 "newline scan from the persisted read offset, persisted back at the end")
p("C16","CSV synchronisation indexes every complete row exactly once under its header",
 "Synchronising a CSV file treats the first line of the file as the header and processes every later complete line exactly once, in order, each under the file's header, never a partial last line, and records the end of the last complete line; synchronising again after the file grew continues from there with the same header.",
 ["inputs","histories"],"every header, every row content and every way of growing the file between synchronisations",
 "Tests synchronise fixed files; the header is recovered differently on later synchronisations, which shows only for particular cuts and header shapes.",
 ["pkg/handlers/csv.go","pkg/appendable/index_file.go"],
 "newline scan from the persisted read offset; header recovered at each synchronisation")
p("C17","A stored data pointer re-reads to the key it was stored with",
 "For every indexed scalar field, the byte range recorded for it in the data file, parsed on its own, gives exactly the key bytes under which it was indexed, so keys that are not stored inline compare the same when they are read back as when they were inserted.",
 ["inputs"],"every JSONL record (any nesting, spacing, escapes, numbers, types) and every unquoted CSV row",
 "Tests use compact JSON; offsets are computed from decoder positions that shift with spacing, escapes and nesting.",
 ["pkg/handlers/jsonl.go","pkg/handlers/csv.go"],
 "field ranges derived from decoder offsets; re-parsing of a value from its range")
p("C18","Inline keys of numbers and booleans sort like their values",
 "For numeric and boolean fields the byte order of the stored keys is the order of the values, and equal values have equal keys, so range scans over numbers are correct.",
 ["inputs"],"all pairs of finite non-negative numbers and of booleans (negative numbers: see the known finding)",
 "Tests index a handful of positive numbers.",
 ["pkg/handlers/jsonl.go","pkg/handlers/csv.go"],
 "big-endian bit patterns as keys")
p("C19","A storage error is always reported",
 "If reading, writing or seeking the underlying storage fails during an operation on the index, that operation returns an error; it never reports success or a result as if nothing had happened.",
 ["fault_sequences","inputs"],"every operation of the page file, slot list, trees and index file, with a storage failure at any of its storage calls",
 "Tests inject no storage errors.",
 ["pkg/bptree/bptree.go","pkg/btree/btree.go","pkg/linkedpage/linkedpage.go","pkg/pagefile/pagefile.go","pkg/appendable/index_file.go"],
 "error returns threaded through every storage call")
p("C20","Storage back ends behave as one growable byte array with a cursor",
 "The memory-mapped file and the in-memory buffer behave as a byte array with a cursor: a write puts exactly those bytes at the cursor, growing the array when needed and changing nothing else; a read returns the bytes at the cursor and advances by their number, reporting the end of data; seeking positions relative to start, cursor or end and rejects or clamps positions outside the data.",
 ["inputs","histories"],"every content, cursor, buffer length and offset, including growth past the end",
 "Tests read and write a few bytes at a few positions; partial reads at the end and writes that straddle the end are boundary cases over two independent lengths.",
 ["pkg/mmap/mmap.go","pkg/buftest/buffer.go"],
 "slice copies at a cursor, append or remap on growth")
p("C21","One index per field and type; files of another version or format are refused",
 "Asking for the index of a field and type returns the existing one if there is one and otherwise creates exactly one new, empty index carrying that name, type and the type's key width, leaving all others untouched. Opening a file with another version or format than the handler's is refused, opening never changes an existing file's records, and a new file starts with version, format and zero progress.",
 ["inputs","histories"],"every list of existing indexes, every field name and type, every stored header",
 "Tests create a few indexes; the scan compares name and type over a list of any length stored on disk.",
 ["pkg/appendable/index_file.go","pkg/appendable/appendable.go"],
 "linear scan of the slot list with metadata comparison, append when absent")
p("C22","The declared key width of a type matches the keys stored under it",
 "For every field type, the key width recorded for a new index of that type is the length of every key that is stored in it (plus one), or zero when keys have no fixed length.",
 ["inputs"],"every field type and every value of that type",
 "The width table and the key construction live in different packages; tests check the table against itself.",
 ["pkg/appendable/appendable.go","pkg/handlers/jsonl.go","pkg/handlers/csv.go","pkg/ngram/tokenizer.go"],
 "width table consulted at index creation, keys built by the handlers")
p("C23","The browser client reads the same index the indexer wrote",
 "The TypeScript client decodes every page, node, key and metadata record to exactly what the Go indexer encoded, and its queries return exactly the records that match, in order.",
 ["inputs","programs"],"every index file and every query",
 "Client tests run against a few fixed files.",
 ["src/bptree/traversal.ts","src/bptree/node.ts","src/file/meta.ts","src/db/database.ts"],
 "independent re-implementation of the decoders and of tree traversal in TypeScript")
p("C24","An interrupted synchronisation leaves a usable index",
 "If the process stops at any point during a synchronisation, reopening the index and synchronising again yields the same index as an uninterrupted synchronisation.",
 ["crash_points","histories"],"every crash point of every synchronisation",
 "No test stops the process midway.",
 ["pkg/handlers/jsonl.go","pkg/bptree/bptree.go","pkg/pagefile/pagefile.go"],
 "none in the current design: pages are updated in place and progress is recorded last")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
