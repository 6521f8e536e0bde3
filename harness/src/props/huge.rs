//! Inputs of 16 MiB and more, where lengths stop fitting in 24, 28 or 32 bits: a few cases per property.
use super::bytes::{leak_free, to_string};
use super::mem::{entry, vtype, Order};
use super::wal::{next, open, read_all, same_records, write_log, Got};
use crate::alloc::{DEFAULT_LIMIT, LIVE_LIMIT};
use crate::engine::*;
use crate::ensure;
use crate::refs::*;
use level_db_rust::db::db_format::LookupKey;
use level_db_rust::db::mem_table::MemTable;
use level_db_rust::verif_hooks::Comparator;
use level_db_rust::util::arena::{Arena, ArenaAllocLike};
use level_db_rust::util::coding::{Decoder, Encoder};
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::crc::{AsCrc, CRC};
use level_db_rust::util::hash::{Hash, ToHash};
use level_db_rust::util::r#const::HASH_DEFAULT_SEED;
use level_db_rust::util::slice::Slice;
use level_db_rust::util::status::{LevelError, Status};
use level_db_rust::util::unsafe_slice::UnsafeSlice;
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Mutex};

/// More live memory than other cases are allowed, for as long as this lives.
struct Limit;
impl Limit { fn raise(gib: i64) -> Limit { LIVE_LIMIT.store(gib << 30, Relaxed); Limit } }
impl Drop for Limit { fn drop(&mut self) { LIVE_LIMIT.store(DEFAULT_LIMIT, Relaxed); } }

/// Around 2^24 or 2^25, anything up to 40 MB, or (`vast` out of 12 times) around 2^28.
fn size(s: &mut Src, vast: u64) -> usize {
    if s.chance(vast, 12) { return (1 << 28) + s.idx(41) - 20; }
    match s.below(4) { 0 => (1 << 24) + s.idx(41) - 20, 1 => (1 << 25) + s.idx(9) - 4, 2 => s.urange(1 << 24, 40_000_000), _ => (1 << 24) + s.idx(100_000) }
}
/// Content without a period that a power of two hits, with a few odd bytes.
fn body(n: usize, seed: u64) -> Vec<u8> {
    let mut x = seed;
    let unit: Vec<u8> = (0..4099).map(|_| splitmix(&mut x) as u8).collect();
    let mut v = Vec::with_capacity(n);
    while v.len() + unit.len() <= n { v.extend_from_slice(&unit); }
    let left = n - v.len();
    v.extend_from_slice(&unit[..left]);
    if n > 0 { for _ in 0..9 { let i = splitmix(&mut x) as usize % n; v[i] = x as u8; } v[n - 1] = seed as u8 ^ 0x5a; }
    v
}
fn mark(cx: &mut Cx, n: usize) {
    cx.nontrivial = true;
    cx.label_if(n >= 1 << 24, "16 MiB or more");
    cx.label_if(n >= 1 << 28, "256 MiB or more");
    cx.label_if(n >= 1 << 32, "4 GiB or more");
}
fn same(sig: &str, what: &str, got: &[u8], want: &[u8]) -> Res {
    if got == want { return Ok(()); }
    let at = got.iter().zip(want).position(|(a, b)| a != b);
    fail(sig, format!("{}: {} bytes, expected {}, differing at {:?}", what, got.len(), want.len(), at))
}

/// C01, C02, C03: one huge record among small ones.
fn log(s: &mut Src, cx: &mut Cx) -> Res {
    let n = size(s, 0);
    let (before, after) = (s.idx(40_000), s.idx(40_000));
    let seed = s.u64();
    let checksum = s.chance(3, 4);
    let cut = s.u64();
    cx.start(s, || format!("records of {}, {} and {} bytes from seed {:#x}, checksum {}", before, n, after, seed, checksum));
    mark(cx, n);
    let _limit = Limit::raise(4);
    let recs = vec![body(before, seed ^ 1), body(n, seed), body(after, seed ^ 2)];
    let data = write_log(&recs)?;
    let (want, spans) = log_encode(&recs);
    same("format/bytes", "the written log", &data, &want)?;
    drop(data);
    // cut off somewhere: the records that are complete, and an end
    let cut = match cut % 3 { 0 => spans[1].end - 1 - (cut >> 8) as usize % 60, 1 => spans[1].end, _ => (cut >> 8) as usize % want.len() };
    let complete = spans.iter().filter(|p| p.end <= cut).count();
    for len in [want.len(), cut] {
        let k = if len == cut { complete } else { 3 };
        let mut r = open(want[..len].to_vec(), checksum, 0)?;
        let (got, stop) = read_all(&mut r, 8)?;
        same_records("roundtrip/records", &format!("the first {} of {} bytes of the log", len, want.len()), &got, &recs[..k])?;
        if len == want.len() { ensure!(stop == Got::End, "roundtrip/end", "after all records there is no end"); }
        else { ensure!(!matches!(stop, Got::Rec(_)), "roundtrip/end", "a record after the cut"); }
    }
    // an offset inside the huge record leaves the last one
    let mut r = open(want, checksum, spans[0].end + 1 + (seed as usize) % n)?;
    match next(&mut r)? { Got::Rec(x) => same("offset/records", "the record after the offset", &x, &recs[2]), g => fail("offset/records", format!("reading from within the huge record gives {}", match g { Got::Err(e) => e, _ => "the end".into() })) }
}

/// C06, C08: strings with a four- or five-byte length, exactly fitting, one byte short, or growing.
fn strings(s: &mut Src, cx: &mut Cx) -> Res {
    let n = size(s, 2);
    let seed = s.u64();
    let kind = s.below(4);
    let checked = s.bool();
    cx.start(s, || format!("{} bytes from seed {:#x}, {}, checked {}", n, seed, ["growing", "exact buffer", "buffer one short", "exact slice"][kind as usize], checked));
    mark(cx, n);
    let _limit = Limit::raise(8);
    let b = Slice::from_vec(body(n, seed));
    let head = varint(n as u64);
    let total = 8 + head.len() + n + 4;
    let fill = |e: &mut Encoder| -> Res {
        must("encode", || { e.put_fixed64(seed) })?.map_err(|_| Fail { sig: "encode/error".into(), msg: "the first value was refused".into() })?;
        let r = must("encode", || if checked { e.put_length_prefixed_slice(&b) } else { e.put_varint32(n as u32).and_then(|_| e.put_buf(&b)) })?;
        ensure!(r.is_ok() && e.offset() == total - 4, "encode/error", "a string of {} bytes: {:?}, offset {}", n, r.err(), e.offset());
        let r = must("encode", || e.put_fixed32(seed as u32))?;
        ensure!(r.is_ok() && e.offset() == total, "encode/error", "the value behind it: {:?}, offset {}", r.err(), e.offset());
        Ok(())
    };
    let out: Vec<u8> = match kind {
        0 => { let mut v = vec![]; { let mut e = Encoder::with_vec(&mut v); fill(&mut e)?; } v }
        1 => { let mut v = vec![0; total]; { let mut e = Encoder::with_buf(&mut v); fill(&mut e)?; } v }
        2 => {
            let mut v = vec![0x5a; head.len() + n - 1];
            { let mut e = Encoder::with_buf(&mut v);
              let r = must("bounded", || e.put_length_prefixed_slice(&b))?;
              ensure!(r.is_err() && e.offset() == 0, "bounded/accepted", "a string of {} bytes in a buffer one byte short: {:?}, offset {}", n, r.is_ok(), e.offset()); }
            ensure!(v.iter().all(|x| *x == 0x5a), "bounded/bytes", "a refused string of {} bytes left bytes behind", n);
            return Ok(());
        }
        _ => { let mut sl = Slice::from_vec(vec![0; total]); { let mut e = Encoder::with_slice(&mut sl); fill(&mut e)?; } sl.into() }
    };
    same("encode/bytes", "the first value", &out[..8], &seed.to_le_bytes())?;
    same("encode/bytes", "the length", &out[8..8 + head.len()], &head)?;
    same("encode/bytes", "the string", &out[8 + head.len()..total - 4], &b)?;
    same("encode/bytes", "the last value", &out[total - 4..], &(seed as u32).to_le_bytes())?;
    let mut d = Decoder::with_vec(&out);
    ensure!(must("decode", || d.get_fixed64())?.ok() == Some(seed), "decode/value", "the first value differs");
    let got = must("decode", || if checked { d.get_length_prefixed_slice() } else { Ok(unsafe { d.uncheck_get_length_prefixed_slice() }) })?;
    match got { Ok(g) => same("decode/value", "the string read back", &g, &b)?, Err(e) => return fail("decode/error", format!("reading a string of {} bytes: {}", n, e.to_string())) }
    ensure!(must("decode", || d.get_fixed32())?.ok() == Some(seed as u32) && d.offset() == total && !d.can_get(), "decode/value", "the last value differs");
    // one byte too few
    let mut d = Decoder::with_buf(&out[8..total - 5]);
    ensure!(must("decode", || d.get_length_prefixed_slice())?.is_err(), "hostile/accepted", "a string of {} bytes was read from one byte fewer", n);
    Ok(())
}

/// The CRC state after n zero bytes, by squaring the step's matrix.
fn crc_zeros(mut state: u32, mut n: u64) -> u32 {
    let mul = |m: &[u32; 32], v: u32| (0..32).filter(|i| v >> i & 1 == 1).fold(0, |a, i| a ^ m[i]);
    let mut m = [0u32; 32];
    for (i, r) in m.iter_mut().enumerate() { *r = crc32c_update(1 << i, &[0]); }
    while n > 0 {
        if n & 1 == 1 { state = mul(&m, state); }
        let sq: Vec<u32> = m.iter().map(|r| mul(&m, *r)).collect();
        m.copy_from_slice(&sq);
        n >>= 1;
    }
    state
}
/// C09, C10: long inputs, one kind of them zeros beyond 4 GiB.
fn sums(s: &mut Src, cx: &mut Cx, crc: bool) -> Res {
    let zeros = s.chance(1, 6);
    let n = if zeros { match s.below(3) { 0 => (1usize << 32) + s.idx(40) - 20, 1 => (1 << 32) + s.idx(1 << 20), _ => (1 << 31) + s.idx(40) - 20 } } else { size(s, 2) };
    let seed = s.u64();
    let shift = s.idx(8);
    cx.start(s, || format!("{} {} from seed {:#x}, the first {} left out", n, if zeros { "zeros" } else { "bytes" }, seed, shift));
    mark(cx, n);
    let _limit = Limit::raise(8);
    let v = if zeros { vec![0u8; n] } else { body(n, seed) };
    let b = &v[shift..];
    if crc {
        let want = if zeros { !crc_zeros(!0, b.len() as u64) } else { crc32c(b) };
        let got = must("crc", || CRC::value(b))?;
        ensure!(got == want, "crc/value", "CRC of {} bytes is {:#x}, expected {:#x}", b.len(), got, want);
        if !zeros {
            let cut = (seed >> 7) as usize % b.len();
            let got = must("crc", || CRC::extend(CRC::value(&b[..cut]), &b[cut..]))?;
            ensure!(got == want, "crc/extend", "CRC of {} bytes extended by {} is {:#x}, expected {:#x}", cut, b.len() - cut, got, want);
            let sl = Slice::from_buf(b);
            ensure!(must("crc", || sl.as_crc())? == want, "crc/container", "as_crc of a slice of {} bytes is wrong", b.len());
        }
    } else {
        let got = must("hash", || Hash::hash_code(b, seed as u32))?;
        ensure!(got == ldb_hash(b, seed as u32), "hash/value", "hash of {} bytes with seed {:#x} is {:#x}, expected {:#x}", b.len(), seed as u32, got, ldb_hash(b, seed as u32));
        if !zeros {
            let sl = Slice::from_buf(b);
            ensure!(must("hash", || sl.to_hash())? == ldb_hash(b, HASH_DEFAULT_SEED), "hash/container", "to_hash of a slice of {} bytes is wrong", b.len());
        }
    }
    Ok(())
}
fn crc(s: &mut Src, cx: &mut Cx) -> Res { sums(s, cx, true) }
fn hash(s: &mut Src, cx: &mut Cx) -> Res { sums(s, cx, false) }

/// C14, C16: keys that differ far out, or only in length.
fn pair(s: &mut Src) -> (usize, usize, u64, Option<(usize, u8)>) {
    let n = size(s, 1);
    let m = match s.below(3) { 0 => n, 1 => n + 1 + s.idx(300), _ => n + (1 << s.urange(8, 24)) };
    let d = if s.chance(2, 3) { Some((match s.below(3) { 0 => n - 1 - s.idx(20), 1 => ((1 << s.urange(16, 24)) + s.idx(3) - 1).min(n - 1), _ => s.idx(n) }, 1 << s.below(8))) } else { None };
    (n, m, s.u64(), d)
}
fn order(s: &mut Src, cx: &mut Cx) -> Res {
    let (n, m, seed, d) = pair(s);
    cx.start(s, || format!("keys of {} and {} bytes from seed {:#x}, altered {:?}", n, m, seed, d));
    mark(cx, n);
    let _limit = Limit::raise(4);
    let mut b = body(m, seed);
    let a = Slice::from_buf(&b[..n]);
    if let Some((at, x)) = d { b[at] ^= x; }
    let b = Slice::from_vec(b);
    let c = BytewiseComparatorImpl::default();
    for (x, y) in [(&a, &b), (&b, &a), (&a, &a)] {
        let want = (**x).cmp(&**y);
        ensure!(must("compare", || c.compare(x, y))? == Some(want), "order/compare", "compare says otherwise than {:?}", want);
        ensure!(must("compare", || x.partial_cmp(y))? == Some(want), "order/slice", "the slices compare otherwise than {:?}", want);
        ensure!(must("eq", || *x == *y)? == (want == std::cmp::Ordering::Equal), "order/equality", "equality differs from {:?}", want);
    }
    Ok(())
}
/// C16: values of many MiB.
fn slices(s: &mut Src, cx: &mut Cx) -> Res {
    let (n, m, seed, d) = pair(s);
    let cut = match s.below(3) { 0 => s.idx(n), 1 => ((1 << 24) - s.idx(30)).min(n), _ => n - s.idx(30) };
    let join = s.text(5);
    cx.start(s, || format!("slices of {} and {} bytes from seed {:#x}, altered {:?}, cut at {}, joined by {:?}", n, m, seed, d, cut, join));
    mark(cx, n);
    let _limit = Limit::raise(8);
    leak_free("slices", || {
        let mut mb = body(m, seed);
        let ma = mb[..n].to_vec();
        if let Some((at, x)) = d { mb[at] ^= x; }
        let mut a = must("slice", || Slice::from_buf(&ma))?;
        let b = must("slice", || Slice::from_vec(mb.clone()))?;
        ensure!(a.size() == n && b.len() == m && !a.empty(), "slice/size", "sizes {} and {}", a.size(), b.len());
        same("slice/content", "copied", &a, &ma)?;
        ensure!(must("starts_with", || b.starts_with(&a))? == mb.starts_with(&ma), "slice/starts_with", "starts_with is wrong");
        same("slice/sub", "rest", &must("remove_prefix", || a.remove_prefix(cut))?, &ma[cut..])?;
        same("slice/sub", "sub", must("as_sub_ref", || a.as_sub_ref(cut, n - cut))?, &ma[cut..])?;
        same("slice/sub", "range", must("index", || &b[cut..m])?, &mb[cut..])?;
        let c = must("clone", || b.clone())?;
        same("slice/content", "clone", &c, &mb)?;
        let mut want = ma.clone();
        want.extend_from_slice(join.as_bytes());
        want.extend_from_slice(&mb);
        must("merge", || a.merge(b, Some(join.clone())))?;
        same("slice/merge", "merged", &a, &want)?;
        let v: Vec<u8> = must("into", || a.into())?;
        same("slice/content", "turned into a vector", &v, &want)?;
        same("slice/content", "the clone afterwards", &c, &mb)
    })
}
/// C15: what keys have in common is long, or what a key begins with and cannot be increased is.
fn separator(s: &mut Src, cx: &mut Cx) -> Res {
    let n = size(s, 0);
    let seed = s.u64();
    let (x, y) = (s.u8(), s.u8());
    let tails = (s.idx(30), s.idx(30));
    let full = s.chance(1, 3);
    cx.start(s, || format!("{} bytes in common {}, then {} and {}, then {:?} more", n, if full { "that are all 0xff".to_string() } else { format!("from seed {:#x}", seed) }, x, y, tails));
    mark(cx, n);
    let _limit = Limit::raise(4);
    let mut a: Vec<u8> = if full { vec![0xff; n] } else { body(n, seed) };
    let mut b = a.clone();
    a.push(x); b.push(y);
    a.extend(body(tails.0, 1)); b.extend(body(tails.1, 2));
    if seed % 5 == 0 { a.truncate(n); }
    let c = BytewiseComparatorImpl::default();
    let start = to_string(&a);
    let got = must("separator", || c.find_shortest_separator(&start, &Slice::from_buf(&b)))?;
    if a < b {
        ensure!(got.as_bytes() >= &a[..], "separator/below-start", "the separator ({} bytes) is below the start ({} bytes)", got.len(), a.len());
        ensure!(got.as_bytes() < &b[..], "separator/reaches-limit", "the separator ({} bytes) reaches the limit ({} bytes)", got.len(), b.len());
        ensure!(got.len() <= a.len(), "separator/longer", "the separator has {} bytes, the start {}", got.len(), a.len());
        if a.len() > n && x < y && x + 1 < y {
            cx.label("can be shortened");
            ensure!(got.len() <= n + 1, "separator/not-shortened", "the separator has {} bytes, although {} suffice", got.len(), n + 1);
        }
    } else {
        same("separator/changed", "start is not below the limit, the result", got.as_bytes(), &a)?;
    }
    let got = must("successor", || c.find_short_successor(&start))?;
    ensure!(got.as_bytes() >= &a[..] && got.len() <= a.len(), "successor/below", "the successor has {} bytes, the key {}", got.len(), a.len());
    match a.iter().position(|b| *b != 0xff) {
        None => same("successor/changed", "nothing can be increased, the result", got.as_bytes(), &a),
        Some(p) => { ensure!(got.len() <= p + 1, "successor/not-shortened", "the successor has {} bytes, although {} suffice", got.len(), p + 1); Ok(()) }
    }
}

/// C17: an arena of more than 65,536 blocks.
fn arena_blocks(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(65_537, 120_000);
    let spread = s.urange(1, 600);
    let seed = s.u64();
    cx.start(s, || format!("{} allocations of 1025 to {} bytes, from seed {:#x}", n, 1024 + spread, seed));
    cx.nontrivial_if(true);
    cx.label("over 65,536 blocks");
    let _limit = Limit::raise(8);
    leak_free("arena blocks", || {
        let mut arena = must("arena/new", Arena::default)?;
        let mut x = seed;
        let mut live: Vec<(usize, usize)> = Vec::with_capacity(n);
        let (mut usage, mut total) = (0, 0);
        for i in 0..n {
            let size = 1025 + splitmix(&mut x) as usize % spread;
            let (p, got) = must("arena/allocate", || { let b = if i % 3 == 0 { arena.allocate_align(size, 8) } else { arena.allocate(size) }; (b.as_mut_ptr() as usize, b.len()) })?;
            ensure!(got == size, "arena/size", "request {} for {} bytes gave {}", i, size, got);
            let b = unsafe { std::slice::from_raw_parts_mut(p as *mut u8, size) };
            b.fill(i as u8);
            b[..4].copy_from_slice(&(i as u32).to_le_bytes());
            live.push((p, size));
            total += size;
            let u = must("arena/usage", || arena.memory_usage())?;
            ensure!(u >= usage, "arena/usage-decreased", "memory usage went from {} to {}", usage, u);
            ensure!(u >= total, "arena/usage-too-small", "memory usage is {} after handing out {} bytes", u, total);
            usage = u;
        }
        for (i, (p, size)) in live.iter().enumerate() {
            let b = unsafe { std::slice::from_raw_parts(*p as *const u8, *size) };
            ensure!(b[..4] == (i as u32).to_le_bytes() && b[4..].iter().all(|c| *c == i as u8), "arena/content", "allocation {} of {} bytes changed", i, size);
        }
        live.sort();
        ensure!(live.windows(2).all(|w| w[0].0 + w[0].1 <= w[1].0), "arena/overlap", "two of {} allocations overlap", n);
        must("arena/drop", || drop(arena))
    })
}

/// C17: arena slices of many MiB.
fn arena(s: &mut Src, cx: &mut Cx) -> Res {
    if s.chance(1, 2) { return arena_blocks(s, cx); }
    let n = size(s, 2);
    let seed = s.u64();
    let small = s.urange(1, 20);
    let cut = match s.below(3) { 0 => s.idx(n), 1 => ((1 << 24) - s.idx(30)).min(n), _ => n - s.idx(30) };
    cx.start(s, || format!("{} bytes from seed {:#x} among {} small slices, cut at {}", n, seed, small, cut));
    mark(cx, n);
    let _limit = Limit::raise(8);
    leak_free("arena slices", || {
        let arena = Arc::new(Mutex::new(Arena::default()));
        let big = body(n, seed);
        let mut live: Vec<(UnsafeSlice, Vec<u8>)> = vec![];
        for i in 0..small {
            let b = body((seed >> i) as usize % 900, i as u64);
            let u = must("unsafe_slice/new", || UnsafeSlice::new_with_arena(&b, arena.clone()))?.map_err(|e| Fail { sig: "unsafe_slice/new".into(), msg: e.to_string() })?;
            live.push((u, b));
        }
        let u = must("unsafe_slice/new", || UnsafeSlice::new_with_arena(&big, arena.clone()))?.map_err(|e| Fail { sig: "unsafe_slice/new".into(), msg: e.to_string() })?;
        ensure!(u.len() == n, "unsafe_slice/len", "a slice of {} bytes has length {}", n, u.len());
        same("unsafe_slice/content", "the slice", u.as_ref(), &big)?;
        let t = must("unsafe_slice/sub", || unsafe { u.sub_slice(cut, n - cut) })?;
        same("unsafe_slice/sub", "the part", t.as_ref(), &big[cut..])?;
        same("slice/content", "the copy", &must("unsafe_slice/to_slice", || u.to_slice())?, &big)?;
        let sl = Slice::from_vec(big.clone());
        let c = must("slice/copy", || sl.copy_with_arena(arena.clone()))?;
        drop(sl);
        same("slice/content", "the copy over the arena", &c, &big)?;
        same("unsafe_slice/content", "the slice later", u.as_ref(), &big)?;
        let sum: usize = live.iter().map(|x| x.1.len()).sum::<usize>() + n;
        let usage = must("arena/usage", || arena.lock().unwrap().memory_usage())?;
        ensure!(usage >= sum, "arena/usage-too-small", "memory usage is {} after handing out {} bytes", usage, sum);
        for (u, b) in &live { same("unsafe_slice/content", "a small slice", u.as_ref(), b)?; }
        Ok(())
    })
}

/// C19: keys and values of many MiB.
fn memtable(s: &mut Src, cx: &mut Cx) -> Res {
    let n = size(s, 2);
    let seed = s.u64();
    let long_key = n < 1 << 28 && s.chance(1, 3);
    let k = if long_key { size(s, 0) } else { s.idx(40) };
    let del = s.chance(1, 4);
    cx.start(s, || format!("{} key of {} value of {} bytes from seed {:#x}, between small writes", if del { "delete" } else { "put" }, k, n, seed));
    mark(cx, n);
    let _limit = Limit::raise(8);
        let writes = [(1, body(3, 1), body(9, 2), false), (2, body(k, seed ^ 1), body(n, seed), del), (3, body(3, 1), body(0, 1), true), (4, vec![], body(300, 4), false)];
        let mut t = must("memtable/create", || MemTable::create(Arc::new(Order(0))))?;
        let mut sum = 0;
        let mut want = BTreeSet::new();
        for (q, k, v, del) in &writes {
            if let Err(e) = must("memtable/add", || t.add(*q, vtype(*del), k, v))? { return fail("memtable/add", format!("write {} was refused: {}", q, e.to_string())); }
            let e = entry(*q as u64, *del, k, v);
            sum += e.len();
            want.insert(e);
        }
        let usage = must("memtable/usage", || t.approximate_memory_usage())?;
        ensure!(usage >= sum, "memtable/usage-too-small", "memory usage {} with {} bytes stored", usage, sum);
        let got: Vec<UnsafeSlice> = must("memtable/entries", || t.verif_list().iter().take(9).collect())?;
        ensure!(got.len() == 4, "memtable/entry-missing", "{} of 4 entries stored", got.len());
        for (i, w) in want.iter().enumerate() { same("memtable/entry-missing", &format!("entry {}", i), got[i].as_ref(), w)?; }
        Ok(())
}

/// C20: lookup keys of many MiB.
fn lookup(s: &mut Src, cx: &mut Cx) -> Res {
    let n = size(s, 3);
    let seed = s.u64();
    let seq = seed >> 8;
    cx.start(s, || format!("user key of {} bytes from seed {:#x}, sequence {}", n, seed, seq));
    mark(cx, n);
    let _limit = Limit::raise(8);
    leak_free("lookup key", || {
        let k = body(n, seed);
        let head = varint(n as u64 + 8);
        let l = must("lookup/new", || LookupKey::new(Slice::from_buf(&k), seq as usize))?;
        let m = must("lookup/mem_table_key", || l.mem_table_key())?;
        let h = head.len();
        ensure!(m.len() == h + n + 8, "lookup/mem_table_key", "memtable key of {} bytes for a user key of {}", m.len(), n);
        same("lookup/mem_table_key", "length", &m[..h], &head)?;
        same("lookup/mem_table_key", "user key", &m[h..h + n], &k)?;
        same("lookup/mem_table_key", "tag", &m[h + n..], &(seq << 8 | 1).to_le_bytes())?;
        let i = must("lookup/internal_key", || l.internal_key())?;
        same("lookup/internal_key", "internal key", &i, &m[h..])
    })
}

/// C28: messages of many MiB.
fn status(s: &mut Src, cx: &mut Cx) -> Res {
    let n = size(s, 0);
    let seed = s.u64();
    cx.start(s, || format!("a message of {} bytes from seed {:#x}", n, seed));
    mark(cx, n);
    let _limit = Limit::raise(4);
    let text = String::from_utf8(body(n, seed).iter().map(|b| b & 0x7f).collect()).unwrap();
    let st = must("make", || LevelError::corruption(Slice::from(text.as_str()), Slice::from("and more")))?;
    ensure!(st.is_corruption() && !st.is_ok(), "status/kind", "a corruption with a long message is something else");
    let want = format!("{}: and more", text);
    same("status/message", "get_msg", must("get_msg", || st.get_msg())?.as_bytes(), want.as_bytes())?;
    same("status/text", "to_string", must("to_string", || st.to_string())?.as_bytes(), format!("Corruption: {}", want).as_bytes())?;
    let st = must("make", || Status::wrapper(LevelError::KIOError, Slice::from(text.clone())))?;
    same("status/message", "into_msg", &must("into_msg", || st.into_msg())?, text.as_bytes())
}

/// The further checks of a property, with how many cases the quick and the thorough command run.
pub fn subs(id: &str) -> Vec<Sub> {
    let run: fn(&mut Src, &mut Cx) -> Res = match id {
        "C01" | "C02" | "C03" => log,
        "C06" | "C08" => strings,
        "C09" => crc,
        "C10" => hash,
        "C14" => order,
        "C15" => separator,
        "C16" => slices,
        "C17" => arena,
        "C19" => memtable,
        "C20" => lookup,
        "C28" => status,
        _ => return vec![],
    };
    let quick = match id { "C01" | "C02" | "C03" => 6, "C09" | "C10" => 16, "C16" => 16, _ => 32 };
    vec![Sub { name: "huge", quick, thorough: quick * 40, run }]
}
