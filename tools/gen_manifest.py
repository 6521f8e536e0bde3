#!/usr/bin/env python3
"""Writes ../MANIFEST.json from properties.jsonl and the table below."""
import json, os, subprocess
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
HOOKS=["eabb6e29871523e537257f25517400c0fa6a1833","c6064ad025f730040e8d604b3cb420caa579eabf"]
BASE="seeded generated inputs, each failure re-run alone in a fresh process and shrunk; AddressSanitizer and a layout- and leak-checking allocator under every case; nothing is proved about inputs not generated"
T={
"C01":("model-based property testing: generated record sequences, append/read round trip against the list of records","trusts the harness's in-memory Read/Seek/Write"),
"C02":("property-based differential testing against an independent LevelDB log codec, both directions, and generated start offsets","trusts the harness's reference log codec (refs.rs), written from the format description"),
"C03":("property-based crash-point testing: generated logs cut at generated positions (all positions for small logs) against the reference prefix","a crash is a truncation of the byte stream"),
"C04":("structure-aware mutation fuzzing of logs, valid-fragment sequences and arbitrary bytes against a prefix/subsequence oracle","assumes a masked CRC32C collision does not occur by chance; in-place damage only"),
"C05":("property-based fault injection: generated short, interrupted and failing writes, flushes and reads against the fault-free result","faults are those of std::io Read/Write/Seek"),
"C06":("model-based property testing: typed value sequences, round trip and byte comparison with a reference encoder","reference encoder in refs.rs"),
"C07":("fuzzing of decode operation sequences over arbitrary and mutated bytes, differential against a bounds-checked reference decoder","checked entry points only"),
"C08":("property-based testing of bounded encoders over generated buffer sizes and values against a model buffer with guard bytes","reference encoder in refs.rs"),
"C09":("property-based differential testing against a bitwise CRC32C, over lengths, splits and alignments","reference is a bit-at-a-time CRC"),
"C10":("property-based differential testing against a reference LevelDB hash","reference hash transcribed from the LevelDB definition"),
"C11":("property-based testing: generated key sets and configurations, membership invariant; fuzzing of filter bytes","through FilterPolicy trait objects re-exported by the hook"),
"C12":("property-based differential testing against a reference Bloom filter, and generated false-positive rate measurement","the rate bound is only asserted on sets large enough for it to be far from chance"),
"C13":("stateful property testing of filter block building against a reference builder and a reference block decoder","filter policies are the Bloom policy and generated stand-ins"),
"C14":("property-based testing of order laws and differential against byte order","bytewise comparator and Slice order only"),
"C15":("property-based testing of the separator and successor relations on generated near-colliding keys","keys pass through the library's own unchecked String conversion"),
"C16":("stateful model-based testing of slice operation sequences against byte vectors","a refusal is a panic"),
"C17":("stateful property testing of arena allocation sequences: disjointness, alignment, content and accounting invariants over the whole history, under AddressSanitizer","one recorded known finding (alignment inside a block)"),
"C18":("model-based property testing of insert and iterator operation sequences against an ordered set, with generated tower heights through an injected random source","tower heights are generated through the random source hook"),
"C19":("property-based testing: generated write sequences, entries read back and decoded by an independent decoder, against a model of the entries in internal-key order","entries are read through a hook, because get and iteration are todo!()"),
"C20":("property-based testing against a reference encoding, round trip of packing and unpacking","reference encoding in the harness"),
"C21":("stateful model-based testing of cache operation sequences with colliding keys against a map of latest insertions","keys with chosen hashes are made by inverting the hash"),
"C22":("stateful model-based testing against a reference sharded LRU cache with charges","the model covers both conventions for usage exactly at the limit"),
"C23":("stateful property testing with drop-counting values, a leak-checking allocator and AddressSanitizer","values are released promptly means: by the operation that removes them"),
"C24":("property-based concurrent history testing: generated per-thread operations on real threads, each lookup checked against the interval history, the end state against a sequential oracle","schedules are sampled, not enumerated"),
"C25":("stateful model-based testing of list operation sequences against a vector, with drop-counting elements","implemented operations only"),
"C26":("stateful property testing of add, merge and clear histories: parsed reports against statistics computed from the samples, and merge against one histogram of all samples","statistics are observed through the printed report, to its precision"),
"C27":("model-based property testing of draw sequences against the Lehmer generator","one recorded known finding (32-bit product): draws are then required to follow exactly that recorded deviation"),
"C28":("property-based testing of constructors, accessors and conversions over generated kinds, messages and codes","messages read as text are valid UTF-8"),
"C29":("model-based property testing: generated setter histories, the encoding decoded by an independent manifest decoder and compared with a model","independent decoder in the harness"),
"C30":("property-based concurrent history testing: generated per-thread lock, try, panic and pause operations on real threads, critical-section invariants and interval oracle","schedules are sampled, not enumerated"),
"C31":("model-based property testing of metadata construction, change histories and pairwise equality, and of key and tag conversions, against plain field values","internal keys are given contents through a hook"),
"C32":("property-based testing over generated programs: macro invocations with generated element expressions, lengths and notations are compiled and run, each checked against the elements and evaluation counts it must have","element expressions come from 23 kinds; the compiler is trusted"),
"C33":("property-based testing of work and memory: generated insertion orders and allocation histories, comparator calls and memory usage counted against logarithmic and proportional bounds","bounds have slack of a factor of about two and more"),
}
NA={
"C40":"the database type is only declarations and todo!() at this commit: there is no operation to generate histories for",
"C41":"open, logging from the database and recovery are todo!() at this commit: no crash point of a database exists (the log's own crash behaviour is C03)",
"C42":"block, footer, table builder and table reader are todo!() at this commit: nothing can be built or read (the filter block is C13)",
"C43":"memtable get and iterators, internal key comparison and seeking are todo!() at this commit (what is stored is C19)",
"C44":"VersionEdit::decode_from and the version set are todo!() at this commit (the encoding is C29)",
}
ids=[json.loads(l)["id"] for l in open(os.path.join(root,"properties.jsonl"))]
checks=[]; na=[]
for i in ids:
    if i in T:
        t,n=T[i]
        checks.append(dict(property=i,quick_cmd="./check.sh "+i,thorough_cmd="VERIF_TIER=thorough ./check.sh "+i,evidence_file="evidence/%s.json"%i,technique=t,level="exploration",level_note=n+"; "+BASE))
    else: na.append(dict(property=i,reason=NA.get(i,"no check yet")))
m=dict(version=1,setup_cmd="./check.sh",hooks=dict(guard="verif_hooks",enable='RUSTFLAGS="--cfg verif_hooks" (check.sh sets it when it builds the harness, which depends on /repo by path)',source_commits=HOOKS),checks=checks,not_applicable=na,
 notes="check.sh builds /verif/harness against /repo's working tree and runs one property's generated-case search; --replay FILE re-runs a saved reproduction.")
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(checks),len(na))
