//! C11-C13: Bloom filters and filter blocks.
use crate::engine::*;
use crate::ensure;
use crate::refs::*;
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::slice::Slice;
use level_db_rust::verif_hooks::filter_block::{FilterBlock, FilterBlockBuilder};
use level_db_rust::verif_hooks::{FilterPolicy, FilterPolicyPtr};
use std::cell::RefCell;
use std::sync::Arc;

fn key(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[3, 4, 2, 1]) {
        0 => { let n = s.urange(0, 4); s.bytes(n) }
        1 => s.blob(40),
        2 => { let v = s.below(1000) as u32; v.to_le_bytes().to_vec() }
        _ => s.blob(2000),
    }
}
fn keys(s: &mut Src, max: usize) -> Vec<Vec<u8>> {
    let n = s.urange(0, max);
    if n > 60 {
        // numbered keys from one seed
        let base = s.u64();
        return (0..n as u64).map(|i| { let mut x = base ^ i; let l = 1 + (splitmix(&mut x) % 12) as usize; let mut v = i.to_le_bytes().to_vec(); v.truncate(8); v.extend((0..l).map(|_| splitmix(&mut x) as u8)); v }).collect();
    }
    let mut v: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        if !v.is_empty() && s.chance(1, 8) { let k = s.pick(&v).clone(); v.push(k); } else { v.push(key(s)); }
    }
    v
}
fn bits(s: &mut Src) -> usize {
    match s.weighted(&[8, 6, 2, 1]) { 0 => *s.pick(&[10usize, 1, 0, 2, 8, 16, 43, 44, 64]), 1 => s.urange(0, 50), 2 => s.urange(0, 1200), _ => *s.pick(&[2000usize, 4096, 5000, 8192, 16384, 20000, 32768, 65536, 70000, 400_000]) + s.idx(3) }
}
/// Keeps a filter of n keys below a few hundred KB.
fn bits_for(s: &mut Src, n: usize) -> usize { let b = bits(s); if b * n > 400_000 { b.min(400_000 / n) } else { b } }
fn refs_of(v: &[Slice]) -> Vec<&Slice> { v.iter().collect() }
fn slices(v: &[Vec<u8>]) -> Vec<Slice> { v.iter().map(|k| Slice::from_buf(k)).collect() }

fn no_false_negative(s: &mut Src, cx: &mut Cx) -> Res {
    let most = if s.chance(1, 20) { 2000 } else { 40 };
    let ks = keys(s, most);
    let b = bits_for(s, ks.len());
    let cap = if s.chance(1, 3) { Some(s.urange(0, ks.len() * 2 + 3)) } else { None };
    cx.start(s, || format!("{} keys, {} bits per key, sized for {:?}: [{}]", ks.len(), b, cap, ks.iter().take(8).map(|k| hex(k)).collect::<Vec<_>>().join(", ")));
    cx.label_if(ks.iter().any(|k| k.is_empty()), "empty key");
    cx.label_if(ks.is_empty(), "no keys");
    cx.label_if(cap.map_or(false, |c| c < ks.len()), "sized for fewer keys");
    cx.label_if(ks.len() > 60, "many keys");
    cx.nontrivial_if(ks.len() >= 2);
    let p = must("bloom", || BloomFilterPolicy::new_with_bits_per_key(b))?;
    let sl = slices(&ks);
    let f = must("bloom/create", || match cap { None => p.create_filter(refs_of(&sl)), Some(c) => p.create_filter_with_len(c, refs_of(&sl)) })?;
    for k in &sl {
        let m = must("bloom/match", || p.key_may_match(k, &f))?;
        ensure!(m, "bloom/false-negative", "key {} is in the set of {} keys ({} bits per key) but the filter rejects it", hex(k), ks.len(), b);
    }
    cx.evals(ks.len() as u64);
    // an all-empty filter matches nothing
    if ks.is_empty() {
        for k in [&b""[..], b"a", &[0xff; 9]] {
            ensure!(!must("bloom/match", || p.key_may_match(&Slice::from_buf(k), &f))?, "bloom/empty", "the filter of no keys matches {}", hex(k));
        }
        ensure!(!must("bloom/match", || p.key_may_match(&Slice::from_buf(b"k"), &Slice::default()))?, "bloom/empty", "the empty string as a filter matches a key");
    }
    Ok(())
}

/// Large sets, and long keys.
fn many_keys(s: &mut Src, cx: &mut Cx) -> Res {
    let long = s.chance(1, 3);
    let most = if s.chance(1, 8) { 80_000 } else { 40_000 };
    let n = if long { s.urange(1, 12) } else { s.urange(1, most) };
    let base = s.u64();
    let b = *s.pick(&[10usize, 10, 1, 5, 20, 40]);
    let exact = s.bool();
    cx.start(s, || format!("{} {} keys from seed {:#x}, {} bits per key", n, if long { "long" } else { "short" }, base, b));
    cx.nontrivial_if(n >= 2);
    cx.label_if(n > 10_000, "over 10000 keys");
    cx.label_if(long, "keys up to 200 KB");
    let ks: Vec<Vec<u8>> = (0..n as u64).map(|i| { let mut x = base ^ i; let l = if long { splitmix(&mut x) as usize % 200_000 } else { 4 + splitmix(&mut x) as usize % 20 }; let mut v = i.to_le_bytes()[..4].to_vec(); v.extend((0..l).map(|_| splitmix(&mut x) as u8)); v }).collect();
    let p = must("bloom", || BloomFilterPolicy::new_with_bits_per_key(b))?;
    let sl = slices(&ks);
    let f = must("bloom/create", || if exact { p.create_filter(refs_of(&sl)) } else { p.create_filter_with_len(n, refs_of(&sl)) })?;
    // matching copies the filter: over 1 GB in all, only some of the keys, from a random start
    let step = (n * f.len() >> 30) + 1;
    let from = if step > 1 { s.idx(step) } else { 0 };
    for (i, k) in sl.iter().enumerate() {
        if i % step != from && i + 20 < n { continue; }
        ensure!(must("bloom/match", || p.key_may_match(k, &f))?, "bloom/false-negative", "key {} of {} is in the set ({} bits per key) but the filter of {} bytes rejects it: {}", i, n, b, f.len(), hex(k));
    }
    cx.evals(n as u64);
    Ok(())
}

/// A few keys at so many bits per key that the filter has about 2^32 bits or more.
fn vast_filter(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 4);
    // a filter laid out for more keys than it is given
    let room = if s.chance(2, 3) { Some((*s.pick(&[1usize, 3, 10, 11, 20]), s.urange(100_000, 40_000_000))) } else { None };
    let bits: u64 = match s.below(4) { 0 => (1 << 32) + s.below(200) - 100, 1 => 1 << 32, 2 => s.range(3 << 30, 5 << 30), _ => (1 << 32) + s.below(1 << 20) };
    let (b, cap) = match room { Some((b, c)) => (b, c), None => ((bits as usize + n - 1) / n, n) };
    let ks: Vec<Vec<u8>> = (0..n).map(|_| key(s)).collect();
    let other = key(s);
    cx.start(s, || format!("{} keys laid out as {}, {} bits per key: [{}]; and {}", n, cap, b, ks.iter().map(|k| hex(k)).collect::<Vec<_>>().join(", "), hex(&other)));
    cx.nontrivial = true;
    cx.label_if(room.is_some(), "laid out for more keys");
    cx.label_if(n * b >= 1 << 32, "2^32 bits or more");
    crate::alloc::LIVE_LIMIT.store(16 << 30, std::sync::atomic::Ordering::Relaxed);
    struct Limit;
    impl Drop for Limit { fn drop(&mut self) { crate::alloc::LIVE_LIMIT.store(crate::alloc::DEFAULT_LIMIT, std::sync::atomic::Ordering::Relaxed); } }
    let _limit = Limit;
    let p = must("bloom", || BloomFilterPolicy::new_with_bits_per_key(b))?;
    let sl = slices(&ks);
    let f = must("bloom/create", || if room.is_some() { p.create_filter_with_len(cap, refs_of(&sl)) } else { p.create_filter(refs_of(&sl)) })?;
    let bytes = ((cap * b).max(64) + 7) / 8;
    ensure!(f.len() == bytes + 1, "bloom/size", "filter of {} keys at {} bits per key has {} bytes, expected {}", n, b, f.len(), bytes + 1);
    ensure!(f[bytes] as usize == crate::refs::bloom_k(b), "bloom/probes", "filter of {} keys at {} bits per key ends with {}", n, b, f[bytes]);
    let mut want: std::collections::BTreeMap<usize, u8> = Default::default();
    let probes = |key: &[u8]| { let mut h = crate::refs::ldb_hash(key, 0xbc9f_1d34); let d = (h >> 17) | (h << 15); (0..crate::refs::bloom_k(b)).map(|_| { let pos = h as usize % (bytes * 8); h = h.wrapping_add(d); pos }).collect::<Vec<_>>() };
    for k in &ks { for pos in probes(k) { *want.entry(pos / 8).or_default() |= 1 << (pos % 8); } }
    for (at, v) in &want { ensure!(f[*at] == *v, "bloom/layout", "byte {} of the filter of {} keys at {} bits per key is {:#x}, expected {:#x}", at, n, b, f[*at], v); }
    let whole: &[u8] = &f[..bytes];
    let (a, m, z) = unsafe { whole.align_to::<u64>() };
    let set: u32 = a.iter().chain(z).map(|x| x.count_ones()).sum::<u32>() + m.iter().filter(|x| **x != 0).map(|x| x.count_ones()).sum::<u32>();
    ensure!(set == want.values().map(|v| v.count_ones()).sum::<u32>(), "bloom/layout", "the filter of {} keys at {} bits per key has {} bits set", n, b, set);
    for k in sl.iter() { ensure!(must("bloom/match", || p.key_may_match(k, &f))?, "bloom/false-negative", "key {} of {} is in the set ({} bits per key) but the filter of {} bytes rejects it", hex(k), n, b, f.len()); }
    let is = probes(&other).iter().all(|pos| whole[pos / 8] & (1 << (pos % 8)) != 0);
    ensure!(must("bloom/match", || p.key_may_match(&Slice::from_buf(&other), &f))? == is, "bloom/other", "key {} against the filter of {} bytes: expected {}", hex(&other), f.len(), is);
    Ok(())
}

fn many_layout(s: &mut Src, cx: &mut Cx) -> Res {
    let most = if s.chance(1, 8) { 80_000 } else { 30_000 };
    let n = s.urange(1, most);
    let base = s.u64();
    let b = *s.pick(&[10usize, 10, 1, 5, 20, 40, 1200]);
    let n = if b > 100 { n / 100 + 1 } else { n };
    cx.start(s, || format!("{} keys from seed {:#x}, {} bits per key", n, base, b));
    cx.nontrivial = true;
    cx.label_if(n > 10_000, "over 10000 keys");
    let ks: Vec<Vec<u8>> = (0..n as u64).map(|i| { let mut x = base ^ i; let l = splitmix(&mut x) as usize % 20; (0..l).map(|_| splitmix(&mut x) as u8).collect() }).collect();
    let p = must("bloom", || BloomFilterPolicy::new_with_bits_per_key(b))?;
    let sl = slices(&ks);
    let f = must("bloom/create", || p.create_filter(refs_of(&sl)))?;
    let want = bloom_build(&ks, b);
    let at = f.iter().zip(&want).position(|(x, y)| x != y);
    ensure!(f.len() == want.len() && at.is_none(), "bloom/layout", "filter of {} keys at {} bits per key ({} bytes) differs at {:?} from the expected one ({} bytes)", n, b, f.len(), at, want.len());
    Ok(())
}

fn arbitrary_filter(s: &mut Src, cx: &mut Cx) -> Res {
    let mut f = s.blob(300);
    if s.bool() && !f.is_empty() { let n = f.len(); f[n - 1] = *s.pick(&[0u8, 1, 7, 29, 30, 31, 32, 255, 128]); }
    let k = key(s);
    cx.start(s, || format!("key {} against filter bytes {}", hex(&k), hex(&f)));
    cx.nontrivial_if(f.len() >= 2);
    let p = BloomFilterPolicy::new();
    let m = must("bloom/match", || p.key_may_match(&Slice::from_buf(&k), &Slice::from_buf(&f)))?;
    let want = bloom_match(&k, &f);
    cx.label(if m { "matches" } else { "does not match" });
    ensure!(m == want, "bloom/arbitrary", "key {} against {} is {}, a LevelDB filter reader says {}", hex(&k), hex(&f), m, want);
    Ok(())
}

fn layout(s: &mut Src, cx: &mut Cx) -> Res {
    let ks = keys(s, 120);
    let b = bits_for(s, ks.len());
    let probe: Vec<Vec<u8>> = (0..4).map(|_| key(s)).collect();
    cx.start(s, || format!("{} keys, {} bits per key: [{}]", ks.len(), b, ks.iter().take(8).map(|k| hex(k)).collect::<Vec<_>>().join(", ")));
    cx.nontrivial_if(!ks.is_empty());
    cx.label_if(ks.len() * b < 64, "minimum size");
    cx.label_if(ks.len() * b % 8 != 0, "size rounded up");
    cx.label(&format!("{} probes", bloom_k(b)));
    let p = must("bloom", || BloomFilterPolicy::new_with_bits_per_key(b))?;
    let sl = slices(&ks);
    let f = must("bloom/create", || p.create_filter(refs_of(&sl)))?;
    let want = bloom_build(&ks, b);
    ensure!(f.to_vec() == want, "bloom/layout", "filter of {} keys at {} bits per key is {} ({} bytes), expected {} ({} bytes)", ks.len(), b, hex(&f), f.len(), hex(&want), want.len());
    for k in &probe {
        let m = must("bloom/match", || p.key_may_match(&Slice::from_buf(k), &f))?;
        ensure!(m == bloom_match(k, &want), "bloom/answers", "key {}: {} but a LevelDB reader says {}", hex(k), m, bloom_match(k, &want));
    }
    ensure!(must("bloom/name", || p.name())? == "leveldb.BuiltinBloomFilter", "bloom/name", "the policy's name changed");
    Ok(())
}

fn false_positives(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 4000).max(1);
    let base = s.u64();
    let mode = s.below(3);
    cx.start(s, || format!("{} keys of kind {} from seed {:#x}, 10 bits per key, 3000 absent keys", n, mode, base));
    cx.nontrivial = true;
    let mk = |i: u64| -> Vec<u8> { match mode { 0 => (i as u32).to_le_bytes().to_vec(), 1 => format!("key{:08}-{:x}", i, base & 0xff).into_bytes(), _ => { let mut x = base ^ i; (0..16).map(|_| splitmix(&mut x) as u8).collect() } } };
    let sl: Vec<Slice> = (0..n as u64).map(|i| Slice::from_vec(mk(i))).collect();
    let p = BloomFilterPolicy::new();
    let f = must("bloom/create", || p.create_filter(refs_of(&sl)))?;
    let mut hit = 0;
    let m = 3000u64;
    for i in 0..m { if must("bloom/match", || p.key_may_match(&Slice::from_vec(mk(i + 1_000_000_000)), &f))? { hit += 1; } }
    cx.evals(m);
    // 2% asked for; small sets have a coarse filter, so the sampling allowance is wide: 60 expected at the limit
    ensure!(hit <= 60 + 48, "bloom/false-positives", "{} of {} absent keys match a filter of {} keys with 10 bits per key", hit, m, n);
    Ok(())
}

// ---------------------------------------------------------------- C13

/// A policy whose filter is the list of its keys, so that the filter block's content can be read back exactly.
struct ListPolicy { calls: RefCell<Vec<Vec<Vec<u8>>>> }
fn list_filter(keys: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    for k in keys { put_varint(&mut o, k.len() as u64); o.extend(k); }
    o
}
impl FilterPolicy for ListPolicy {
    fn name(&self) -> String { "list".into() }
    fn create_filter(&self, keys: Vec<&Slice>) -> Slice { self.create_filter_with_len(keys.len(), keys) }
    fn create_filter_with_len(&self, _n: usize, keys: Vec<&Slice>) -> Slice {
        let ks: Vec<Vec<u8>> = keys.iter().map(|k| k.to_vec()).collect();
        let f = list_filter(&ks);
        self.calls.borrow_mut().push(ks);
        Slice::from_vec(f)
    }
    fn key_may_match(&self, _k: &Slice, _f: &Slice) -> bool { true }
}

#[derive(Clone, Debug)]
enum Op { Start(u64), Key(Vec<u8>) }

fn filter_block(s: &mut Src, cx: &mut Cx) -> Res {
    let bloom = s.chance(1, 3);
    let n = s.urange(0, 30);
    let mut off = 0u64;
    let mut ops = vec![];
    for _ in 0..n {
        if s.chance(1, 3) {
            off += match s.weighted(&[3, 3, 3, 1]) {
                0 => s.below(300),
                1 => { let b = (off / 2048 + 1) * 2048 - off; let d = s.range(0, 4); (b + d).saturating_sub(2) }
                2 => s.below(9000),
                _ => s.below(300_000),
            };
            ops.push(Op::Start(off));
        } else { ops.push(Op::Key(key(s))); }
    }
    let cap = if s.bool() { Some(s.len(200)) } else { None };
    let as_str = s.bool();
    filter_block_run(s, cx, bloom, ops, cap, as_str)
}

/// Thousands of keys or blocks, blocks far into a file (beyond 4 GiB), filters over 64 KiB, long keys.
fn long_filter_block(s: &mut Src, cx: &mut Cx) -> Res {
    let bloom = s.chance(1, 3);
    let style = s.weighted(&[32, 32, 16, 8, 1, 2]);
    let one_range = style == 4 && s.chance(1, 2);
    let n = match style { 4 => s.urange(if one_range { 66_000 } else { 60_000 }, 90_000), 0 => s.urange(1, 3000), 1 => s.urange(1, 1500), 2 => s.urange(1, 12), _ => s.urange(1, 5) };
    let seed = s.u64();
    let per = if one_range { 10_000_000 } else if style == 4 { s.urange(2000, 100_000) } else { s.urange(1, 400) } as u64;
    let mut x = seed;
    let mut off = 0u64;
    let mut ops = vec![];
    for i in 0..n {
        let r = splitmix(&mut x);
        let klen = match style { 5 => (r >> 8) as usize % [1_100_000, 2_500_000, 9_000_000][(seed % 3) as usize], 4 => (r >> 8) as usize % 7, 2 => (r >> 8) as usize % 70_000, _ => (r >> 8) as usize % 40 };
        if r % (per + 1) == 0 || i == 0 && style == 3 {
            off += match style { 3 => 3_000_000_000 + (r >> 8) % 3_000_000_000, 1 => (r >> 8) % 20_000, 4 => (r >> 8) % 1_000_000, _ => (r >> 8) % 5000 };
            ops.push(Op::Start(off));
        }
        let mut y = r;
        ops.push(Op::Key((0..klen).map(|_| splitmix(&mut y) as u8).collect()));
    }
    let (cap, as_str) = (None, false);
    cx.label(["thousands of keys", "many blocks", "long keys", "blocks beyond 4 GiB", "over 60000 keys", "keys of megabytes"][style]);
    cx.label_if(one_range, "over 65536 keys in one range");
    filter_block_run(s, cx, bloom, ops, cap, as_str)
}

fn filter_block_run(s: &mut Src, cx: &mut Cx, bloom: bool, ops: Vec<Op>, cap: Option<usize>, as_str: bool) -> Res {
    cx.start(s, || format!("{} policy, {} operations {:?}", if bloom { "Bloom" } else { "list" }, ops.len(), ops.iter().take(60).map(|o| match o { Op::Start(x) => format!("block at {}", x), Op::Key(k) => format!("key {}", hex(k)) }).collect::<Vec<_>>()));
    let policy: FilterPolicyPtr = if bloom { Arc::new(Box::new(BloomFilterPolicy::new())) } else { Arc::new(Box::new(ListPolicy { calls: RefCell::new(vec![]) })) };
    let mut b = must("filterblock/new", || match cap { None => FilterBlockBuilder::new_with_policy(policy.clone()), Some(c) => FilterBlockBuilder::new_with_policy_capacity(policy.clone(), c) })?;
    // model: filters by index
    let mut filters: Vec<Vec<Vec<u8>>> = vec![];
    let mut pending: Vec<Vec<u8>> = vec![];
    let mut empties = 0;
    for o in &ops {
        match o {
            Op::Start(x) => {
                must("filterblock/start_block", || b.start_block(*x))?;
                while (filters.len() as u64) < x / 2048 { if pending.is_empty() { empties += 1; } filters.push(std::mem::take(&mut pending)); }
            }
            Op::Key(k) => {
                must("filterblock/add_key", || match std::str::from_utf8(k) { Ok(t) if as_str => b.add_key_from_str(t), _ => b.add_key(&Slice::from_buf(k)) })?;
                pending.push(k.clone());
            }
        }
    }
    if !pending.is_empty() { filters.push(pending); }
    cx.label_if(empties > 0, "empty filter for a gap");
    cx.label_if(filters.len() > 1, "several filters");
    cx.nontrivial_if(filters.iter().filter(|f| !f.is_empty()).count() >= 2);
    let r = must("filterblock/finish", || b.finish())?;
    let got = match r { Ok(x) => x.to_vec(), Err(e) => return fail("filterblock/finish", format!("finish failed: {}", e.to_string())) };
    let mut want = vec![];
    let mut starts = vec![];
    for f in &filters {
        starts.push(want.len() as u32);
        if !f.is_empty() { want.extend(if bloom { bloom_build(f, 10) } else { list_filter(f) }); }
    }
    let arr = want.len() as u32;
    for x in starts { want.extend(x.to_le_bytes()); }
    want.extend(arr.to_le_bytes());
    want.push(11);
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return fail("filterblock/layout", format!("finished block ({} bytes: {}) differs at byte {} from the expected layout ({} bytes: {}; filters end at {})", got.len(), hex(&got), at, want.len(), hex(&want), arr));
    }
    // look every key up the way a reader does
    let num = (got.len() - 5 - arr as usize) / 4;
    let word = |at: usize| u32::from_le_bytes(got[at..at + 4].try_into().unwrap()) as usize;
    let mut cur = 0u64;
    for o in &ops {
        match o {
            Op::Start(x) => cur = *x,
            Op::Key(k) if bloom => {
                let i = (cur >> got[got.len() - 1]) as usize;
                ensure!(i < num, "filterblock/missing", "no filter for the block at {}", cur);
                let a = arr as usize + 4 * i;
                let f = &got[word(a)..word(a + 4)];
                ensure!(must("bloom/match", || policy.key_may_match(&Slice::from_buf(k), &Slice::from_buf(f)))?, "filterblock/false-negative", "key {} of the block at {} is not in its filter", hex(k), cur);
            }
            _ => {}
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C11", rule: "no_false_negative, many_keys: at least two keys; vast_filter: every case; arbitrary_filter: a filter string of at least two bytes", assumptions: &["key sets up to 80000 keys; filters up to 640 MiB"],
            subs: vec![Sub { name: "no_false_negative", quick: 30000, thorough: 1500000, run: no_false_negative }, Sub { name: "arbitrary_filter", quick: 40000, thorough: 2000000, run: arbitrary_filter }, Sub { name: "many_keys", quick: 64, thorough: 3000, run: many_keys }, Sub { name: "vast_filter", quick: 8, thorough: 300, run: vast_filter }] },
        Prop { id: "C12", rule: "layout: at least one key; many_layout, vast_filter: every case; false_positives: every case (one key set, 3000 absent keys)", assumptions: &["the number of probes is 0.69 times the bits per key rounded to the nearest integer (pinned by the existing tests; LevelDB truncates)"],
            subs: vec![Sub { name: "layout", quick: 30000, thorough: 1500000, run: layout }, Sub { name: "false_positives", quick: 300, thorough: 10000, run: false_positives }, Sub { name: "many_layout", quick: 150, thorough: 6000, run: many_layout }, Sub { name: "vast_filter", quick: 12, thorough: 400, run: vast_filter }] },
        Prop { id: "C13", rule: "at least two non-empty filters", assumptions: &["block offsets up to about 30 GB"],
            subs: vec![Sub { name: "filter_block", quick: 40000, thorough: 2000000, run: filter_block }, Sub { name: "long_filter_block", quick: 200, thorough: 8000, run: long_filter_block }] },
    ]
}
