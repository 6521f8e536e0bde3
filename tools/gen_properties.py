#!/usr/bin/env python3
"""Writes ../properties.jsonl. Edit here, run, commit both."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)

LW="src/db/log_writer.rs"; LR="src/db/log_reader.rs"; CO="src/util/coding.rs"
p("C01","Write-ahead log: every appended record is read back exactly, in order",
 "Reading a log from its start returns exactly the sequence of records that was appended, each byte for byte and in order, whatever their lengths (including empty records, records that end at or near a 32 KiB block boundary, and records spanning several blocks), and then reports end of log, again on every further read. This holds with checksum verification on and off.",
 ["inputs","histories"],"all sequences of records of any lengths and contents, so all positions a record can take relative to block boundaries, with and without checksum verification",
 "The only log test writes 100 records of 1 to 100 bytes, all in the first block, and only checks that writing returns Ok; its read half fails at the pinned commit. No test reaches a block boundary, an empty record, a fragmented record or the end of the log.",
 [LW,LR],[("append splits a record into fragments per block",LW+": LogWriter::add_record"),("fragments reassembled per record",LR+": LogReader::read_next")],
 [("block offset","write position in the current block",LW+": LogWriter.block_offset"),("buffer","current block being parsed",LR+": LogReader.buf")],
 ["LogWriter::add_record","LogReader::read_next"])
p("C02","Write-ahead log files follow the LevelDB log format bit for bit",
 "The bytes a log writer produces for any sequence of records are exactly those of the LevelDB log format: 32 KiB blocks, a 7-byte header of masked little-endian CRC32C over type and payload, little-endian length and fragment type, and zero fill when fewer than 7 bytes remain in a block. Conversely a log in that format, produced by any conforming writer, is read back as the records it encodes, and reading from a later starting offset returns exactly the records that begin at or after that offset.",
 ["inputs","histories"],"all record sequences; all starting offsets inside the file",
 "The log test does not look at the bytes written. A writer and reader that agree with each other but not with the format pass any round-trip test.",
 [LW,LR,"src/util/crc.rs"],[("physical record layout",LW+": LogWriter::emit_physical_record"),("header parse and fragment types",LR+": LogReader::read_next"),("initial offset",LR+": LogReader::new")],
 None,["bytes handed to the writer's sink","LogReader::read_next"])
p("C03","Write-ahead log cut short by a crash recovers exactly the complete records",
 "If a log is cut at any byte position, reading it returns exactly the records whose last byte lies before the cut, in order and unaltered. It then reports end of log or an error instead of returning a partial or invented record, without crashing and in bounded time.",
 ["crash_points","histories"],"every truncation point of logs of every shape",
 "No test reads a truncated log; the crash points that matter (inside a header, between fragments, inside block padding) are positions no hand-picked file covers.",
 [LR,LW],[("end-of-file detection and header bounds",LR+": LogReader::read_next, read_buf")],
 None,["LogReader::read_next on a truncated file"])
p("C04","Damaged write-ahead log bytes are never returned as data",
 "With checksum verification on, after any overwriting of bytes of a log (flipped bits, zeroed or replaced ranges) the records returned before the reader first reports an error or the end are a prefix of the records that were written, and that prefix contains every record lying before the damage. Reading on after a reported error only ever returns records that were written, in order, never payload taken for a record or a record pieced together from parts of different ones. Damage stays confined to the 32 KiB blocks it touches: every record that shares no block with a damaged byte is returned. With verification on or off, and on arbitrary bytes, the reader never crashes, never reads outside its buffer and always terminates.",
 ["inputs","fault_sequences"],"all in-place alterations of well-formed logs, all sequences of individually valid fragments, and all arbitrary byte strings as log files",
 "No test feeds the reader a damaged file; malformed lengths, types and fragment sequences are unbounded in number.",
 [LR,"src/util/crc.rs"],[("checksum comparison",LR+": LogReader::check_crc"),("record type dispatch",LR+": LogReader::read_next")],
 None,["LogReader::read_next on a damaged file"])
p("C05","Write-ahead log handles partial and failing I/O without losing data",
 "If appending a record returns success then all its bytes have reached the sink in order and the sink was flushed after them, even when the sink accepts fewer bytes than offered or is interrupted; if the sink fails, the append returns an error. What a reader returns does not depend on how many bytes each underlying read delivers, and an underlying read error is reported as an error and not as data or end of log.",
 ["fault_sequences","histories"],"all patterns of short or failing writes, flushes and reads over all record sequences",
 "Tests use a regular file, where every write and read is complete and succeeds.",
 [LW,LR],[("sink writes and flush",LW+": emit_physical_record, add_record"),("block fill",LR+": read_buf")],
 None,["fault-injecting Write / Read+Seek passed to LogWriter::new / LogReader::new"])
p("C06","Integer and string encodings round-trip and are canonical",
 "Every sequence of values written by the encoder (fixed 32/64-bit, variable-length 32/64-bit, length-prefixed strings, raw bytes) decodes to the same values in the same order, consuming exactly the bytes that were written. The bytes are the LevelDB ones: little-endian fixed integers and minimal-length little-endian base-128 varints, whose length is the one predicted by the varint length function.",
 ["inputs","histories"],"all sequences of typed values, through both the checked and unchecked entry points and every kind of encoder buffer",
 "The tests encode a few hand-picked constants, one operation at a time; the 64-bit varint paths have a separate code arm per length that a handful of values does not visit.",
 [CO],[("varint encode arms",CO+": var32!/var64! encode"),("varint decode",CO+": get_varint32/get_varint64"),("length prediction",CO+": varint_length")],
 None,["Encoder/Decoder public methods, varint_length"])
p("C07","Decoding any bytes is memory safe and rejects malformed input",
 "For any byte string and any sequence of checked decode operations, each operation either returns the value a reference decoder computes from the bytes at the current position and advances past exactly those bytes, or reports an error; it never reads outside the input and never crashes. Truncated integers, varints with no terminating byte within their maximum length, length prefixes larger than the remaining input and skips beyond the end are reported as errors.",
 ["inputs","histories"],"all byte strings and all sequences of checked decode, skip and can-get operations",
 "The tests decode only what the encoder produced; malformed, truncated and overlong inputs are never tried.",
 [CO],[("bounds checks before each read",CO+": check_length!, Decoder::get_*"),("length-prefixed reads",CO+": get_length_prefixed_slice")],
 None,["Decoder::get_*, skip, can_get, offset"])
p("C08","Bounded encoders report a full buffer and never write outside it",
 "Writing through the checked encoder into a fixed-size buffer either stores the complete encoding of the value and advances the position by its size, or reports an error and leaves the position and every byte unchanged; no byte outside the buffer is ever touched. With a growable buffer the write always succeeds and the final contents are exactly the concatenation of the encodings.",
 ["inputs","histories"],"all buffer sizes and all sequences of values, including those that just fit and just do not",
 "Tests write into buffers that are comfortably large or, once or twice, obviously too small; exact-fit and one-short cases per type and per length are not covered.",
 [CO],[("capacity check per write",CO+": check_length!, vec_resize!"),("buffer handover",CO+": BufferWriter and Encoder::with_*")],
 None,["Encoder::put_*, offset, len and the backing buffer"])
p("C09","CRC32C: standard values, composable, independent of memory placement",
 "The checksum of a byte string is its CRC-32C (Castagnoli) value, regardless of length or of where the bytes lie in memory. Extending the checksum of A with B gives the checksum of A followed by B for every split, and masking is the LevelDB mask, inverted exactly by unmasking for every 32-bit value.",
 ["inputs"],"all byte strings, all splits, all memory alignments, all 32-bit checksums",
 "Tests check a few fixed vectors in whichever alignment the allocator gives them; the fast path depends on alignment and length modulo 16.",
 ["src/util/crc.rs"],[("strided table computation","src/util/crc.rs: CRC::extend"),("mask/unmask","src/util/crc.rs: CRC::mask, CRC::unmask")],
 None,["CRC::value/extend/mask/unmask, AsCrc, ToMask"])
p("C10","The hash function is LevelDB's hash, stable across platforms and types",
 "For every byte string and seed the hash equals the LevelDB hash of those bytes with that seed. Hashing the same bytes through any supported container type or seed-taking form gives the same value.",
 ["inputs"],"all byte strings of every length modulo 4, with bytes of both signs, and all 32-bit seeds",
 "Tests compare a few fixed vectors; persistent filters depend on the value for every key.",
 ["src/util/hash.rs"],[("murmur-like mixing","src/util/hash.rs: Hash::hash_code"),("container adapters","src/util/hash.rs: ToHash impls")],
 None,["Hash::hash_code, ToHash::to_hash, to_hash_with_seed"])
BF="src/util/filter_policy_bloom.rs"
p("C11","Bloom filters have no false negatives",
 "A filter built from any set of keys at any bits-per-key setting matches every key of that set, including empty keys, duplicate keys and keys of arbitrary bytes. An empty filter matches nothing, and querying any byte string as a filter never crashes.",
 ["inputs","configurations"],"all key sets, all bits-per-key settings, all strings queried as filters",
 "Tests build filters for a handful of sizes with 4-byte integer keys and the default setting.",
 [BF],[("filter construction",BF+": create_filter_with_len"),("membership test",BF+": key_may_match")],
 None,["FilterPolicy::create_filter/key_may_match"],"re-export of private modules `traits` and `table`")
p("C12","Bloom filters have LevelDB's size, layout and false-positive rate",
 "A filter for n keys at b bits per key occupies the LevelDB size (b bits per key, at least 64 bits, whole bytes), ends with the probe count (0.69 times b to the nearest integer, from 1 to 30), and sets exactly the bits the LevelDB probe sequence sets, so that a filter produced by one conforming implementation gives the same answers in another. With 10 bits per key the rate of false matches for keys not in the set stays under 2%.",
 ["inputs","configurations"],"all key sets and bits-per-key settings",
 "Tests check a rate for one key pattern and do not compare bits; a change that weakens probing on some lengths keeps every asserted match.",
 [BF,"src/util/hash.rs"],[("probe count and double hashing",BF+": new_with_bits_per_key, create_filter_with_len"),("filter sizing",BF+": create_filter_with_len")],
 None,["FilterPolicy::create_filter/key_may_match"],"re-export of private modules")
FB="src/table/filter_block.rs"
p("C13","Filter blocks store one findable filter per 2 KiB of block offsets",
 "For any monotone sequence of block starts with keys added between them, the finished filter block is the LevelDB layout: the filters back to back, then their 32-bit start offsets, the offset of that array and the base-size byte. The filter located for a block's offset contains every key added for that block, and building always terminates whatever the gaps between block offsets.",
 ["histories","inputs"],"all sequences of block starts at non-decreasing offsets with any keys of arbitrary bytes, any filter policy",
 "Tests use empty builders or one start at offset below 2 KiB with ASCII keys and do not decode the result.",
 [FB],[("filter boundaries by offset",FB+": start_block, generate_filter"),("trailer encoding",FB+": finish")],
 [("filter offsets","start of each filter in the result",FB+": FilterBlockBuilder.filter_offsets")],["bytes returned by finish"],"re-export of private module `table`")
CM="src/util/comparator.rs"
p("C14","Bytewise key order is a total order equal to unsigned byte order",
 "The default comparator orders any two keys exactly as unsigned lexicographic byte order does, and is therefore reflexive, antisymmetric, transitive and total over keys of arbitrary bytes. Comparing slices of keys directly gives the same order and the same equality.",
 ["inputs"],"all pairs and triples of byte strings, including empty keys, prefixes and bytes above 0x7f",
 "Tests compare a few ASCII strings.",
 [CM,"src/util/slice.rs"],[("comparison",CM+": BytewiseComparatorImpl::compare"),("slice order","src/util/slice.rs: PartialOrd/PartialEq for Slice")],
 None,["Comparator::compare, Slice ordering"],"re-export of private module `traits`")
p("C15","Index-key shortening never leaves the range it must separate",
 "For keys start < limit the shortest-separator function returns a key that is at least start and below limit and no longer than start, and shortens it whenever the first differing byte leaves room; for start not below limit it returns start. The short-successor function returns a key that is at least its argument and no longer than it; neither crashes on any bytes.",
 ["inputs"],"all pairs of byte strings, in particular prefixes of one another, adjacent differing bytes and 0xff bytes",
 "Tests use ASCII words; the wrong results need a prefix pair or adjacent bytes at the first difference.",
 [CM],[("separator",CM+": find_shortest_separator"),("successor",CM+": find_short_successor")],
 None,["Comparator::find_shortest_separator, find_short_successor"],"re-export of private module `traits`")
p("C16","Byte slices behave as values",
 "Every slice operation (construction from any source, size, emptiness, indexing, sub-ranges, prefix removal, prefix test, merge, copy, conversion back to a vector, comparison) gives the result the same operation gives on a plain byte vector, and mutating or dropping one slice never affects another or its source. Out-of-range requests are refused, and every operation is memory safe and releases its memory exactly once.",
 ["histories","inputs"],"all sequences of slice operations over all byte contents",
 "Tests call each method once on short ASCII strings.",
 ["src/util/slice.rs"],[("owned byte storage","src/util/slice.rs: Slice")],
 None,["Slice public methods and trait impls"])
p("C17","Arena allocations are disjoint, aligned, stable and accounted for",
 "Every block an arena hands out has the requested size and alignment, overlaps no other block handed out, and keeps its contents until the arena is dropped, after which all memory is released. The reported memory usage never decreases and is at least the number of bytes handed out; slices built over an arena hold exactly the bytes they were built from for as long as they live.",
 ["histories","inputs"],"all sequences of plain and aligned allocations of all sizes, and of slices built over the arena and re-sliced",
 "Tests allocate twice and check the usage figure; overlap, alignment and later corruption are not observed.",
 ["src/util/arena.rs","src/util/unsafe_slice.rs"],[("bump allocation","src/util/arena.rs: allocate, allocate_align, allocate_fallback"),("arena-backed slices","src/util/unsafe_slice.rs: UnsafeSlice")],
 [("block list","owned blocks","src/util/arena.rs: Arena.buf")],["Arena::allocate*, memory_usage; UnsafeSlice methods"])
SL="src/db/skip_list.rs"
p("C18","The skip list is a sorted set of every key inserted",
 "After any sequence of insertions, whatever random heights are drawn, a key is reported present exactly when it was inserted, iteration yields every inserted key exactly once in comparator order, the length equals the number of distinct keys and inserting a key already present changes nothing. A key the comparator cannot place may be refused with an error, which leaves the list exactly as it was. All operations terminate and are memory safe on lists of any size, including the empty list.",
 ["histories","inputs"],"all insertion histories over all byte keys, interleaved with lookups and iterations, under all random height draws",
 "The skip-list tests are commented out at the pinned commit; a wrong link shows only for particular heights and insertion orders.",
 [SL],[("search and linking per level",SL+": insert, insert_ele0, insert_elen, contains"),("iteration",SL+": Iter")],
 [("node towers","next pointers per level",SL+": Node.next_elems")],["SkipList::insert/contains/len/iter"],"re-export of private module `traits`")
p("C19","The memtable accepts every write and keeps each entry complete",
 "Every write of a key, value, sequence number and kind to a memtable completes, also on a table already holding entries and also from any history of earlier writes. It stores one entry holding the length-prefixed internal key (user key, sequence and kind) and the length-prefixed value exactly, keeps all earlier entries, and the reported memory usage never decreases and covers all stored bytes.",
 ["histories","inputs"],"all sequences of puts and deletes with any keys and values",
 "No test touches the memtable (its test module is empty) and lookup is not implemented, so nothing observes what is stored.",
 ["src/db/mem_table.rs"],[("entry encoding","src/db/mem_table.rs: MemTable::add")],
 None,["MemTable::add, approximate_memory_usage, entries in the underlying list through a hook"],"read access to the memtable's entries")
p("C20","Lookup keys and packed sequence numbers encode as LevelDB's",
 "For any user key and sequence number the lookup key's memtable form is the varint of key length plus 8, then the user key, then the little-endian 64-bit word (sequence << 8 | kind), and its internal form is that without the length prefix. Packing a sequence number and kind is injective over the whole 56-bit range.",
 ["inputs"],"all user keys (lengths across the varint boundary) and all 56-bit sequence numbers",
 "No test covers key formats (the test module is empty).",
 ["src/db/db_format.rs"],[("lookup key layout","src/db/db_format.rs: LookupKey::new"),("packing","src/db/db_format.rs: pack_sequence_and_type")],
 None,["LookupKey::mem_table_key/internal_key, pack_sequence_and_type"])
CA="src/util/cache.rs"
p("C21","A cache lookup returns the latest value inserted for that key, or nothing",
 "For any sequence of inserts, lookups, erasures and prunes, looking up a key returns either nothing or the value most recently inserted under exactly that key and not erased since; never a value of another key, an overwritten value or an erased one. While the charges inserted stay below one shard's share of the capacity, nothing is dropped and every such lookup returns the value.",
 ["histories","inputs"],"all operation sequences over all keys, including keys that collide in shard, bucket or hash",
 "Tests insert distinct numbered keys once; overwrites, collisions within a bucket and re-insertion after eviction or erasure are not exercised.",
 [CA],[("hash table with chains",CA+": HandleTable"),("shard selection",CA+": ShardLRUCache")],
 None,["ShardLRUCache insert/lookup/erase/prune"])
p("C22","The cache stays within capacity, accounts charges and evicts oldest first",
 "After every operation the total charge is exactly the sum of the charges of the entries still retrievable, and it never exceeds the configured capacity (rounded up per shard) for entries that individually fit. Entries are evicted only to make room, within a shard in least recently used order, where a successful lookup counts as use; pruning empties the cache. The hash tables grow with their content: there are never fewer slots than retrievable entries, and pruning restores the initial number.",
 ["histories","inputs"],"all sequences of inserts (with any charges), lookups, erasures and prunes at all capacities",
 "Tests check totals after a monotone run of same-size inserts of distinct keys, where insertion order equals recency order and one eviction per insert suffices.",
 [CA],[("LRU list",CA+": lru_append, lru_remove"),("eviction loop and usage",CA+": LRUCache::insert")],
 None,["total_charge, capacity, lookup of every key"])
p("C23","The cache is memory safe and releases every value exactly once",
 "Across any history of operations and the final drop of the cache, every inserted value stays valid while the caller holds it or the cache contains it and is released exactly once after both are gone. Overwritten, erased, evicted and pruned values are released by the cache promptly, and no operation accesses freed memory.",
 ["histories"],"all operation sequences, with value handles retained by the caller for arbitrary spans, ended by dropping the cache at any point",
 "Tests never drop-count values and run on an allocator that does not notice use after free.",
 [CA],[("handle ownership",CA+": LRUHandle, drop_handle, HandleTable::remove")],
 None,["drop counters on values, allocator instrumentation"])
p("C24","The cache is safe and consistent under concurrent use",
 "Under any interleaving of operations from several threads sharing one cache, every lookup returns nothing or a value that some thread inserted under that same key and that was not certainly overwritten or erased before the lookup began. Once the threads are done the charges and contents are consistent as in a sequential run, no operation deadlocks and no memory is misused.",
 ["schedules","histories"],"all interleavings of per-thread operation sequences",
 "The one threaded test runs a single schedule of distinct keys and asserts little.",
 [CA],[("per-shard lock",CA+": ShardLRUCache")],
 None,["per-operation start/end order, final totals"])
p("C25","The linked list behaves as a sequence",
 "For any sequence of additions at the front, at the back and at a position, and of reads and writes by position, the list's length and every element equal those of a plain vector given the same operations. Positions outside the list are refused with an error and leave the list unchanged. Every element stays intact while it is in the list and is released exactly once, when it is replaced or the list is dropped.",
 ["histories","inputs"],"all operation sequences and positions, including zero, last, one past the end and far out of range",
 "Tests perform short fixed scripts.",
 ["src/util/linked_list.rs"],[("node linking","src/util/linked_list.rs: add_first, add_last, add_by_position, get")],
 None,["LinkedList add*/push/get/get_mut/length"])
p("C26","Histogram statistics match the recorded samples, also after merging",
 "For any non-negative samples the report gives their exact count, minimum, maximum and, up to floating-point tolerance, mean and standard deviation; every sample is counted in exactly the bucket (of LevelDB's bucket limits) whose range contains it, percentages and cumulative percentages are those of the counts and end at 100, and the median is the linear interpolation inside the bucket in which half the samples are reached, within the range of the samples. Merging two histograms is indistinguishable from recording all samples in one, and clearing returns it to the empty state.",
 ["inputs","histories"],"all sequences of samples, merges and clears, with samples at and between bucket limits and beyond the last limit",
 "One test records a few samples and prints the result.",
 ["src/util/histogram.rs"],[("bucketing","src/util/histogram.rs: add"),("statistics","src/util/histogram.rs: percentile, standard_deviation, Display")],
 None,["Display output of Histogram"])
p("C27","The random generator is the specified sequence and its draws are in range",
 "From any seed (reduced to 31 bits, with 1 in place of 0 and 2^31-1), each draw is the next value of the Lehmer generator 16807 * s mod 2^31-1, always between 1 and 2^31-2, and never gets stuck. Bounded (next mod n), one-in-n (next mod n is 0), boolean (one in 2) and skewed (uniform below 2^e for e uniform in 0..max_log) draws are those functions of the sequence and stay within their ranges for every n from 1 and every max_log up to 31.",
 ["inputs","histories"],"all 32-bit seeds, all bounds, long draw sequences",
 "Tests pin two draws from one seed.",
 ["src/util/random.rs"],[("Lehmer step","src/util/random.rs: Random::next")],
 None,["Random::new/next/uniform/one_in/skewed"])
p("C28","Status and error values keep their code and message",
 "For every error kind and message, a status built from them reports exactly that kind and no other, carries the message (or the two messages it was built from, joined by ': ') unchanged through reading, conversion and display, where the text is the kind's own prefix followed by the message, and is success exactly when built as success. Numeric codes convert to kinds and back without loss and unknown codes are rejected; I/O and lock-poisoning errors convert to error statuses, never to success.",
 ["inputs"],"all kinds, messages of arbitrary text, all 32-bit codes, all I/O error kinds",
 "Tests check each constructor once with one message.",
 ["src/util/status.rs"],[("code/message wrapper","src/util/status.rs: Status"),("code conversions","src/util/status.rs: LevelError")],
 None,["Status and LevelError public methods"])
p("C29","Version edits encode exactly the fields that were set",
 "The encoding of a version edit is the manifest encoding of precisely the fields set since it was created or cleared: each present field as its tag and value, deleted and added files each once with their level and numbers, and absent fields not at all. Clearing removes every field except the compaction pointers, and encoding does not change the edit.",
 ["histories","inputs"],"all sequences of setters, file additions and deletions, and clears, with any numbers and names",
 "One test encodes one edit and compares a few bytes.",
 ["src/db/version_edit.rs"],[("encoding","src/db/version_edit.rs: VersionEdit::encode_to"),("tags","src/db/version_edit.rs: Tag")],
 None,["VersionEdit::encode_to bytes, parsed by an independent decoder"])
p("C30","The mutex wrapper gives mutual exclusion and always releases",
 "At any time at most one holder is inside a lock obtained from the same mutex, every blocked acquirer eventually proceeds once holders release, and updates made under it are seen by the next holder. A non-blocking attempt never waits, succeeds only when nobody holds it and is refused only while somebody else does. A holder that panics releases the lock, and later holders are told.",
 ["schedules"],"all interleavings of acquiring, trying and releasing threads",
 "The one test takes the lock in a few threads on one schedule.",
 ["src/util/mutex_lock.rs"],[("guard","src/util/mutex_lock.rs: MutexLock, Lock")],
 None,["MutexLock::new/get_lock, Lock::lock/try_lock"])
p("C31","File metadata, internal keys and stored tags keep their values",
 "Metadata of a table file holds exactly the values it was given, whichever constructor was used, with the documented defaults (no references, number and size 0, empty keys, 2^30 allowed seeks) for the rest; changing its size or reference count changes that field and nothing else. Two metadata objects are equal exactly when all six fields are (reference count, allowed seeks, number, size, smallest and largest key). An internal key returns the bytes it holds and their length, and equals another exactly when the bytes are the same. The numbers of version edit tags (1 to 7 and 9) and value types (0 and 1) convert to the tag or type and back without change, and every other number is refused.",
 ["inputs","histories"],"all field values, all constructors, all sequences of changes, all pairs of objects, all 32-bit numbers",
 "The tests compare three objects that differ only in the reference count; no test looks at another field, a key or a tag.",
 ["src/db/file_meta_data.rs","src/db/db_format.rs","src/db/version_edit.rs"],[("constructors and equality","src/db/file_meta_data.rs: FileMetaData"),("internal key contents","src/db/db_format.rs: InternalKey"),("conversions","src/db/version_edit.rs: Tag; src/db/db_format.rs: ValueType")],
 None,["FileMetaData constructors, accessors, ==","InternalKey::as_slice/encode_len/encode/==","Tag::from_value/get_value","ValueType::try_from/get_value"],"internal keys with given contents")
p("C32","The array and pointer macros expand to what they stand for",
 "arr!([element; n]) with an integer literal n, in any notation, is an array of exactly n elements in which the element expression is evaluated once per element, in order, and nothing else is evaluated; when the element is a bare path it names a macro, which is called for each element with its index from 0 to n-1, capacity and default_length. A length that is not an integer literal is refused at compile time, or has the value it means, but is never taken for another length. non_null_new_uncheck!(pointer) evaluates its operand once and is a non-null pointer to the same address.",
 ["inputs"],"all element expressions, lengths, notations and places of use",
 "The only test of the macros does not compile at this commit, so nothing tests them but the one use with length 32 in the cache.",
 ["custom_proc_macro/src/lib.rs"],[("array expansion","custom_proc_macro/src/lib.rs: arr"),("pointer wrapping","custom_proc_macro/src/lib.rs: non_null_new_uncheck")],
 None,["generated programs that use the macros"])
p("C33","In-memory structures do bounded work and waste bounded memory",
 "Looking a key up in a skip list of n keys, whether it is present or absent, and inserting one take a number of key comparisons that is logarithmic in n (on average over the keys and up to the walk along the top level that the fixed maximum height implies), whatever the order of insertion. An arena takes at most a third more memory than was requested of it, plus a constant number of blocks and the padding of aligned requests; a memtable's reported memory usage is bounded likewise by the size of its entries plus a constant per entry.",
 ["histories","inputs"],"all insertion orders, sizes, tower height draws, and sequences of allocations and writes",
 "Tests look only at results: a list whose upper levels are not used or an arena that opens a block per request returns the same answers.",
 [SL,"src/util/arena.rs","src/db/mem_table.rs"],[("levels",SL+": insert_ele0, insert_elen, contains, rand_level"),("block reuse","src/util/arena.rs: allocate_align, allocate_fallback")],
 None,["SkipList::insert/contains with a counting comparator","Arena::memory_usage","MemTable::approximate_memory_usage"],"the random bits that decide tower heights")
# broad guarantees whose code does not exist yet
p("C40","Database reads see the latest acknowledged write",
 "After any history of puts, deletes and batch writes, reading a key returns the value of the last acknowledged write to it, or not-found if that was a deletion or there was none, regardless of where memtable rotation and compaction have moved the data.",
 ["histories"],"all operation histories","Nothing tests it: the database type has no implementation.",
 ["src/db/db.rs"],[("database API (only declarations and todo!())","src/db/db.rs")])
p("C41","Acknowledged writes survive a crash and reopen",
 "After a crash at any point and a reopen, every synchronously acknowledged write is present, no unacknowledged batch is partially applied, and the recovered state equals some prefix of the write history.",
 ["crash_points","histories"],"all crash points of all histories","Nothing tests it: open and recovery are not implemented.",
 ["src/db/db.rs","src/db/version_set.rs"],[("recovery (todo!())","src/db/version_set.rs")])
p("C42","Sorted tables return exactly the entries they were built from",
 "A table built from any sorted sequence of entries returns, through lookup, seek and scan in both directions, exactly those entries, and detects any damaged block.",
 ["inputs","fault_sequences"],"all sorted entry sequences and all damage","Nothing tests it: block, footer, builder and table are todo!().",
 ["src/table/table_builder.rs","src/table/block.rs","src/table/format.rs"],[("table build and read (todo!())","src/table")])
p("C43","Memtable reads and ordered iterators agree with the writes",
 "Looking a key up in a memtable at a snapshot returns the newest entry at or below that sequence number, and iterators visit entries in internal-key order from any seek position in both directions.",
 ["histories"],"all write histories, snapshots and seek positions","Nothing tests it: memtable get and iterator, internal key comparison and seeking are todo!().",
 ["src/db/mem_table.rs","src/db/db_format.rs"],[("memtable get / iterator (todo!())","src/db/mem_table.rs"),("internal key comparator (todo!())","src/db/db_format.rs")])
p("C44","Version edits decode to what was encoded, and version sets apply them",
 "Decoding an encoded version edit gives an equal edit, malformed edits are rejected, and applying a sequence of edits gives the file set they describe.",
 ["inputs","histories"],"all edits and edit sequences","Nothing tests it: decoding and version sets are todo!().",
 ["src/db/version_edit.rs","src/db/version_set.rs"],[("decode_from (todo!())","src/db/version_edit.rs")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
