//! C21-C24: the sharded LRU cache.
use super::bytes::leak_free;
use crate::engine::*;
use crate::ensure;
use crate::refs::ldb_hash;
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::slice::Slice;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};
use std::sync::Arc;

/// A value that knows which insertion it came from and notices being dropped.
struct Val { id: usize, check: Box<u64>, drops: Arc<Vec<AtomicU32>> }
impl Val {
    fn new(id: usize, drops: &Arc<Vec<AtomicU32>>) -> Val { Val { id, check: Box::new(mixed(id)), drops: drops.clone() } }
    fn intact(&self) -> bool { *self.check == mixed(self.id) }
}
impl Drop for Val { fn drop(&mut self) { self.drops[self.id].fetch_add(1, Ordering::SeqCst); } }
fn mixed(id: usize) -> u64 { let mut x = id as u64; splitmix(&mut x) }

/// A key of pre + 4 + suf bytes with the given hash (pre is padded to whole words): the word between them is
/// chosen so that the hash comes out as wanted.
fn key_around(pre: &[u8], suf: &[u8], h: u32) -> Vec<u8> {
    const M: u32 = 0xc6a4_a793;
    let mut inv: u32 = 1;
    for _ in 0..6 { inv = inv.wrapping_mul(2u32.wrapping_sub(M.wrapping_mul(inv))); }
    let pre: Vec<u8> = pre.iter().copied().chain(std::iter::repeat(0)).take((pre.len() + 3) / 4 * 4).collect();
    let suf = if suf.len() >= 8 { &suf[suf.len() - 8..] } else { suf };
    let n = pre.len() + 4 + suf.len();
    // forward to the end of pre, backward from the wanted hash through suf
    let mut a = (n as u32).wrapping_mul(M);
    for w in pre.chunks(4) { a = a.wrapping_add(u32::from_le_bytes(w.try_into().unwrap())).wrapping_mul(M); a ^= a >> 16; }
    let mut b = h;
    let whole = suf.len() / 4 * 4;
    let rest = &suf[whole..];
    if !rest.is_empty() {
        b ^= b >> 24;
        let mut add = 0u32;
        for (i, x) in rest.iter().enumerate() { add = add.wrapping_add((*x as u32) << (8 * i)); }
        b = b.wrapping_mul(inv).wrapping_sub(add);
    }
    for w in suf[..whole].chunks(4).rev() { b ^= b >> 16; b = b.wrapping_mul(inv).wrapping_sub(u32::from_le_bytes(w.try_into().unwrap())); }
    b ^= b >> 16;
    let w = b.wrapping_mul(inv).wrapping_sub(a);
    let mut k = pre;
    k.extend_from_slice(&w.to_le_bytes());
    k.extend_from_slice(suf);
    debug_assert_eq!(ldb_hash(&k, 0), h);
    k
}

/// An 8-byte key that starts with w1 and has the given hash.
fn key_with_hash(w1: u32, h: u32) -> Vec<u8> { key_around(&w1.to_le_bytes(), &[], h) }

fn pool(s: &mut Src, cx: &mut Cx, n: usize) -> Vec<Vec<u8>> {
    let kind = s.below(9);
    // any hash, or one that code might take for a mark
    let base = if s.chance(1, 4) { *s.pick(&[0, u32::MAX, 1, 1 << 31, 0x7fff_ffff, 0xf800_0000, 0x07ff_ffff, 0xffff_fff0, 16, 512, 0xffff, 0x1_0000]) } else { s.u32() };
    let (mut pre, suf) = if kind >= 6 { (s.blob(40), s.blob(12)) } else { (vec![], vec![]) };
    if kind == 8 {
        // as many bytes again as a common buffer, around its size
        let k = match s.below(3) { 0 => 1usize << s.urange(6, 12), 1 => s.urange(100, 3000), _ => 250 } + s.idx(9);
        let fill = s.u8();
        pre.resize(k, fill);
    }
    let mut ks: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        ks.push(match kind {
            0 => format!("key{}", i).into_bytes(),
            1 => key_with_hash(i as u32, base),                                             // identical hashes
            2 => { let b = s.u32(); key_with_hash(s.u32(), base & 0xf800_000f | b & 0x07ff_fff0) } // same shard and bucket
            3 => { let b = s.u32(); key_with_hash(s.u32(), base & 0xf800_0000 | b & 0x07ff_ffff) } // same shard
            4 => { let b = s.below(4) as u32; key_with_hash(s.u32(), base & 0xf800_000f | b << 4) } // few distinct hashes, split by the first resizes
            5 => s.blob(12),
            // one hash, one length, one beginning and one end: only two words in the middle differ
            6 => { let mut q = pre.clone(); q.resize((pre.len() + 3) / 4 * 4, 7); q.extend_from_slice(&(i as u32 ^ base).to_le_bytes()); key_around(&q, &suf, base) }
            // one hash, keys of many lengths
            7 => { let mut q = pre.clone(); q.resize(i * 4 % 60, 7); key_around(&q, &suf[..suf.len().min(i % 5)], base) }
            // long keys: one hash, one length, a word at one of three places differs
            _ => { let mut q = pre.clone(); q.resize((pre.len() + 3) / 4 * 4, 7); let at = [0, q.len() / 8 * 4, q.len()][i % 3]; q.splice(at..at, (i as u32 ^ base).to_le_bytes()); key_around(&q, &suf, base) }
        });
    }
    cx.label(["sequential text keys", "all hashes equal", "same shard and bucket", "same shard", "few hashes in one bucket", "arbitrary keys", "one hash, length, beginning and end", "one hash, many lengths", "long keys, one hash, a word differs"][kind as usize]);
    ks.sort();
    ks.dedup();
    ks
}

#[derive(Clone, Debug)]
enum Op { Insert(usize, usize), Lookup(usize), Erase(usize), Prune, Sweep(u64), Hold(usize), Release(usize) }

#[derive(Clone)]
struct Script { capacity: usize, length: usize, arc: bool, keys: Vec<Vec<u8>>, ops: Vec<Op> }

fn per_shard(capacity: usize) -> usize { capacity / 32 + (capacity % 32 != 0) as usize }

fn charge(s: &mut Src, per: usize, small: bool) -> usize {
    if small { return s.idx(3); }
    match s.weighted(&[5, 3, 2, 1, 1]) {
        0 => 1 + s.idx(3),
        1 => s.idx(per.min(1 << 40) / 3 + 2),
        2 => (per.min(1 << 40) + s.idx(4)).saturating_sub(2) / *s.pick(&[1usize, 2, 3, 4]),
        3 => 0,
        _ => s.urange(0, 1 << 40),
    }
}

/// roomy: capacity far above what is inserted; holds: keep values beyond the operation.
fn script(s: &mut Src, cx: &mut Cx, roomy: bool, holds: bool) -> Script {
    let capacity = match s.weighted(if roomy { &[0, 0, 0, 4, 1] } else { &[4, 3, 1, 1, 1] }) {
        0 => 32 * s.urange(1, 12) - s.idx(32),
        1 => 32 * s.urange(10, 60),
        2 => s.idx(40),
        3 => s.urange(10_000_000, 1 << 40),
        _ => usize::MAX - s.idx(70),
    };
    let per = per_shard(capacity);
    let length = match s.below(4) { 0 => s.idx(2000), 1 => 512, 2 => 1 << s.idx(13), _ => 0 };
    let nkeys = if s.chance(1, 4) { s.urange(20, 90) } else { s.urange(1, 14) };
    let keys = pool(s, cx, nkeys);
    let n = if s.chance(1, 4) { s.urange(40, 160) } else { s.urange(1, 50) };
    let small = s.chance(1, 3) || roomy;
    // phases of one kind of operation make long chains, then reads, then removals
    let mut w = [6u64, 4, 2, 0, 1, 2 * holds as u64, 2 * holds as u64];
    let ops = (0..n).map(|_| {
        if s.chance(1, 16) { w = *s.pick(&[[6, 4, 2, 0, 1, 2 * holds as u64, 2 * holds as u64], [20, 1, 1, 0, 0, 1, 0], [2, 1, 10, 1, 1, 1, 1], [2, 12, 1, 0, 1, 1, 0]]); }
        match s.weighted(&w) {
            0 => Op::Insert(s.idx(keys.len()), charge(s, per, small)),
            1 => Op::Lookup(s.idx(keys.len())),
            2 => Op::Erase(s.idx(keys.len())),
            3 => Op::Prune,
            4 => Op::Sweep(s.u64()),
            5 => if holds { Op::Hold(s.idx(keys.len())) } else { Op::Lookup(s.idx(keys.len())) },
            _ => if holds { Op::Release(s.idx(8)) } else { Op::Lookup(s.idx(keys.len())) },
        }
    }).collect();
    Script { capacity, length, arc: s.bool(), keys, ops }
}

/// Thousands of keys and operations from one seed: the shards' tables grow several times, chains get long, and
/// what is removed early is looked for late.
fn long_script(s: &mut Src, cx: &mut Cx, maxkeys: usize, maxops: usize, holds: bool) -> Script {
    let kind = s.below(6);
    let nkeys = s.urange(40, maxkeys);
    let nops = s.urange(nkeys.min(maxops / 2), maxops);
    let base = s.u32();
    let mut x = s.u64();
    let mut r = move || splitmix(&mut x);
    let mut keys: Vec<Vec<u8>> = (0..nkeys).map(|i| match kind {
        0 => format!("{:06}", i).into_bytes(),
        1 => (i as u32).to_le_bytes().to_vec(),
        2 => key_with_hash(i as u32, base & 0xf800_0000 | r() as u32 & 0x07ff_ffff),        // one shard
        3 => key_with_hash(i as u32, (r() as u32) << 16 | base & 0xffff),                   // one bucket in every shard
        4 => key_with_hash(i as u32, (r() % 3) as u32 * 0x0123_4567 ^ base),                // three hashes
        _ => key_with_hash(i as u32, (r() as u32) & 0xf83f_0000 | base & 0xffff),           // two shards' worth of long chains
    }).collect();
    keys.sort();
    keys.dedup();
    cx.label(["long: text keys", "long: counters", "long: one shard", "long: one bucket", "long: three hashes", "long: chains"][kind as usize]);
    let nkeys = keys.len();
    let roomy = s.chance(1, 3);
    let capacity = if roomy { s.urange(1 << 26, 1 << 40) } else { 32 * s.urange(4, if matches!(kind, 2 | 4 | 5) { nkeys } else { 8 + nkeys / 16 }) + s.idx(32) };
    let length = match s.below(3) { 0 => 0, 1 => s.idx(600), _ => 1 << s.idx(12) };
    let grow = s.bool();
    let mut w = [4u64, 5, 1];
    let mut ops: Vec<Op> = vec![];
    // grow: first every key is inserted once, in order
    if grow { for k in 0..nkeys { ops.push(Op::Insert(k, 1 + (r() % 3) as usize)); } }
    let hw = 2 * holds as u64;
    while ops.len() < nops {
        let v = r();
        if v % 100 == 0 { w = [[4, 5, 1], [9, 1, 0], [1, 2, 9], [1, 9, 1]][(v >> 32) as usize % 4]; }
        let k = (v >> 20) as usize % nkeys;
        let t = (v >> 8) % (w.iter().sum::<u64>() + 2 * hw);
        ops.push(if v % 1009 == 1 { Op::Sweep(v >> 7) } else if v % 1301 == 1 { Op::Prune }
            else if t < w[0] && v % 127 == 5 && !roomy { Op::Insert(k, per_shard(capacity) / (1 + (v >> 50) as usize % 3)) }
            else if t < w[0] { Op::Insert(k, if v % 16 == 3 { 0 } else { 1 + (v >> 50) as usize % 5 }) }
            else if t < w[0] + w[1] { Op::Lookup(k) }
            else if t < w[0] + w[1] + w[2] { Op::Erase(k) }
            else if t < w[0] + w[1] + w[2] + hw { Op::Hold(k) } else { Op::Release((v >> 40) as usize % 64) });
    }
    Script { capacity, length, arc: s.bool(), keys, ops }
}

fn show(c: &Script) -> String {
    if c.keys.len() > 100 { return clip(format!("capacity {} default length {} {} keys from {} to {}, {} ops {:?}", c.capacity, c.length, c.keys.len(), hex(&c.keys[0]), hex(&c.keys[c.keys.len() - 1]), c.ops.len(), &c.ops[c.ops.len() - 40.min(c.ops.len())..]), 1400); }
    clip(format!("capacity {} default length {} keys [{}] ops {:?}", c.capacity, c.length, c.keys.iter().map(|k| hex(k)).collect::<Vec<_>>().join(", "), c.ops), 1400)
}

enum Own { One(ShardLRUCache<Val>), Shared(Arc<ShardLRUCache<Val>>) }
impl Own {
    fn new(c: &Script) -> Own { if c.arc { Own::Shared(ShardLRUCache::new_arc_with_capacity(c.capacity, c.length)) } else { Own::One(ShardLRUCache::new_with_capacity(c.capacity, c.length)) } }
    fn get(&self) -> &ShardLRUCache<Val> { match self { Own::One(c) => c, Own::Shared(c) => c } }
    fn get_mut(&mut self) -> &mut ShardLRUCache<Val> { match self { Own::One(c) => c, Own::Shared(c) => Arc::get_mut(c).unwrap() } }
}

fn done<T>(what: &'static str, r: Result<T, level_db_rust::util::status::Status>) -> Result<T, Fail> {
    match r { Ok(v) => Ok(v), Err(_) => fail(&format!("{}/error", what), format!("{} returned an error", what)) }
}

fn order_of(n: usize, seed: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    let mut x = seed;
    if seed % 4 == 0 { return v; }
    if seed % 4 == 1 { v.reverse(); return v; }
    for i in (1..n).rev() { let j = (splitmix(&mut x) % (i as u64 + 1)) as usize; v.swap(i, j); }
    v
}

// ---------------------------------------------------------------- C21

fn freshness(s: &mut Src, cx: &mut Cx) -> Res {
    let roomy = s.bool();
    let holds = s.bool();
    let c = script(s, cx, roomy, holds);
    cx.start(s, || show(&c));
    freshness_of(c, cx)
}
fn long_freshness(s: &mut Src, cx: &mut Cx) -> Res {
    let c = long_script(s, cx, 2500, 6000, true);
    cx.start(s, || show(&c));
    cx.evals(c.ops.len() as u64 - 1);
    freshness_of(c, cx)
}
fn freshness_of(c: Script, cx: &mut Cx) -> Res {
    let per = per_shard(c.capacity) as u128;
    let drops = Arc::new((0..c.ops.len() + 1).map(|_| AtomicU32::new(0)).collect::<Vec<_>>());
    let mut cache = must("cache/new", || Own::new(&c))?;
    let mut latest: Vec<Option<(usize, usize)>> = vec![None; c.keys.len()];
    // true while nothing can have been dropped
    let mut whole = true;
    let (mut hits, mut misses, mut kept) = (0u64, 0u64, 0u64);
    let mut held: Vec<Arc<Val>> = vec![];
    let absent: Slice = Slice::from("never inserted");
    let look = |cache: &Own, k: usize, latest: &[Option<(usize, usize)>], whole: bool, hits: &mut u64, misses: &mut u64, kept: &mut u64| -> Res {
        let v = done("lookup", must("lookup", || cache.get().lookup(&Slice::from_buf(&c.keys[k])))?)?;
        match (&v, &latest[k]) {
            (Some(v), Some((id, _))) => { ensure!(v.id == *id && v.intact(), "cache/stale", "key {} returns the value of insertion {}, the latest is insertion {}", hex(&c.keys[k]), v.id, id); *hits += 1; if whole { *kept += 1; } }
            (Some(v), None) => return fail("cache/removed", format!("key {} returns the value of insertion {}, although it was removed or never inserted", hex(&c.keys[k]), v.id)),
            (None, Some((id, _))) => { ensure!(!whole, "cache/lost", "key {} (insertion {}) is gone, although all charges together are below one shard's share {}", hex(&c.keys[k]), id, per); *misses += 1; }
            _ => {}
        }
        Ok(())
    };
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            Op::Insert(k, ch) => {
                done("insert", must("insert", || cache.get().insert(&Slice::from_buf(&c.keys[*k]), Val::new(i, &drops), *ch))?)?;
                cx.label_if(latest[*k].is_some(), "overwrite");
                let sum: u128 = latest.iter().flatten().map(|x| x.1 as u128).sum::<u128>() + *ch as u128;
                if sum >= per { whole = false; }
                latest[*k] = Some((i, *ch));
            }
            Op::Erase(k) => { done("erase", must("erase", || cache.get_mut().erase(&Slice::from_buf(&c.keys[*k])))?)?; cx.label_if(latest[*k].is_some(), "erase"); latest[*k] = None; }
            Op::Prune => { done("prune", must("prune", || cache.get_mut().prune())?)?; for l in latest.iter_mut() { *l = None; } whole = true; cx.label("prune"); }
            Op::Lookup(k) => look(&cache, *k, &latest, whole, &mut hits, &mut misses, &mut kept)?,
            Op::Sweep(o) => for k in order_of(c.keys.len(), *o) { look(&cache, k, &latest, whole, &mut hits, &mut misses, &mut kept)?; },
            Op::Hold(k) => {
                look(&cache, *k, &latest, whole, &mut hits, &mut misses, &mut kept)?;
                if let Some(v) = done("lookup", must("lookup", || cache.get().lookup(&Slice::from_buf(&c.keys[*k])))?)? { ensure!(Some(v.id) == latest[*k].map(|l| l.0), "cache/stale", "key {} returns the value of insertion {}", hex(&c.keys[*k]), v.id); held.push(v); cx.label("held values"); }
            }
            Op::Release(n) => if !held.is_empty() { let v = held.swap_remove(n % held.len()); must("value/drop", || drop(v))?; },
        }
    }
    for v in &held { ensure!(v.intact(), "cache/stale", "a value the caller holds has changed"); }
    for k in 0..c.keys.len() { look(&cache, k, &latest, whole, &mut hits, &mut misses, &mut kept)?; }
    if !c.keys.iter().any(|k| k == b"never inserted") {
        ensure!(done("lookup", must("lookup", || cache.get().lookup(&absent))?)?.is_none(), "cache/invented", "a key that was never inserted is found");
    }
    cx.label_if(hits > 0, "hit");
    cx.label_if(misses > 0, "evicted");
    cx.label_if(kept > 0, "hit that had to be kept");
    cx.nontrivial_if(hits > 0);
    must("cache/drop", || drop(cache))?;
    Ok(())
}

// ---------------------------------------------------------------- C22

/// LRU model of the shards; `full_is_over`: an entry is evicted as soon as usage reaches the share.
struct Lru { full_is_over: bool, per: u128, shards: HashMap<u32, Vec<(usize, u128)>>, alive: bool }
impl Lru {
    fn usage(v: &[(usize, u128)]) -> u128 { v.iter().map(|x| x.1).sum() }
    fn insert(&mut self, shard: u32, k: usize, ch: usize) -> usize {
        let v = self.shards.entry(shard).or_default();
        v.retain(|x| x.0 != k);
        v.push((k, ch as u128));
        let mut evicted = 0;
        while !v.is_empty() && { let u = Self::usage(v); if self.full_is_over { u >= self.per } else { u > self.per } } { v.remove(0); evicted += 1; }
        evicted
    }
    fn lookup(&mut self, shard: u32, k: usize) -> bool {
        let v = self.shards.entry(shard).or_default();
        match v.iter().position(|x| x.0 == k) { Some(i) => { let e = v.remove(i); v.push(e); true } None => false }
    }
    fn erase(&mut self, shard: u32, k: usize) { if let Some(v) = self.shards.get_mut(&shard) { v.retain(|x| x.0 != k); } }
    fn total(&self) -> u128 { self.shards.values().map(|v| Self::usage(v)).sum() }
}

fn capacity(s: &mut Src, cx: &mut Cx) -> Res {
    let roomy = s.chance(1, 8);
    let holds = s.bool();
    let c = script(s, cx, roomy, holds);
    cx.start(s, || show(&c));
    capacity_of(c, cx, roomy)
}
fn long_capacity(s: &mut Src, cx: &mut Cx) -> Res {
    let c = long_script(s, cx, 1500, 4000, true);
    cx.start(s, || show(&c));
    cx.evals(c.ops.len() as u64 - 1);
    capacity_of(c, cx, false)
}
fn capacity_of(c: Script, cx: &mut Cx, roomy: bool) -> Res {
    let per = per_shard(c.capacity) as u128;
    let drops = Arc::new((0..c.ops.len() + 1).map(|_| AtomicU32::new(0)).collect::<Vec<_>>());
    let mut cache = must("cache/new", || Own::new(&c))?;
    let shard: Vec<u32> = c.keys.iter().map(|k| ldb_hash(k, 0) >> 27).collect();
    let mut charges = vec![0u128; c.keys.len()];
    let mut models = [true, false].map(|full_is_over| Lru { full_is_over, per, shards: HashMap::new(), alive: true });
    let mut all_fit = true;
    let (mut evicted, mut hits) = (0, 0);
    let mut held: Vec<Arc<Val>> = vec![];
    let slots0 = done("slots", must("slots", || cache.get().slots())?)?;
    ensure!(must("capacity", || cache.get().capacity())? == c.capacity, "cache/capacity", "capacity() is {}, configured {}", cache.get().capacity(), c.capacity);
    for (i, op) in c.ops.iter().chain([Op::Sweep(0)].iter()).enumerate() {
        let mut looks: Vec<usize> = vec![];
        let (mut sweep, mut keep) = (false, false);
        match op {
            Op::Insert(k, ch) => {
                done("insert", must("insert", || cache.get().insert(&Slice::from_buf(&c.keys[*k]), Val::new(i, &drops), *ch))?)?;
                charges[*k] = *ch as u128;
                if *ch as u128 > per { all_fit = false; cx.label("entry larger than a shard"); }
                for m in models.iter_mut() { let e = m.insert(shard[*k], *k, *ch); if m.full_is_over { evicted += e; } }
            }
            Op::Erase(k) => { done("erase", must("erase", || cache.get_mut().erase(&Slice::from_buf(&c.keys[*k])))?)?; for m in models.iter_mut() { m.erase(shard[*k], *k); } }
            Op::Prune => {
                done("prune", must("prune", || cache.get_mut().prune())?)?;
                for m in models.iter_mut() { m.shards.clear(); }
                let t = done("total_charge", must("total_charge", || cache.get().total_charge())?)?;
                ensure!(t == 0, "cache/prune", "total charge {} after pruning", t);
                let n = done("slots", must("slots", || cache.get().slots())?)?;
                ensure!(n == slots0, "cache/prune-slots", "{} slots after pruning, {} at first", n, slots0);
            }
            Op::Lookup(k) => looks.push(*k),
            Op::Sweep(o) => { looks = order_of(c.keys.len(), *o); sweep = true; }
            Op::Hold(k) => { looks.push(*k); keep = true; }
            Op::Release(n) => if !held.is_empty() { let v = held.swap_remove(n % held.len()); must("value/drop", || drop(v))?; },
        }
        let mut found = 0u128;
        let mut nfound = 0usize;
        for k in looks {
            let v = done("lookup", must("lookup", || cache.get().lookup(&Slice::from_buf(&c.keys[k])))?)?;
            let hit = v.is_some();
            if keep { if let Some(v) = v { held.push(v); cx.label("held values"); } }
            if hit { found += charges[k]; nfound += 1; hits += 1; }
            for m in models.iter_mut() { if m.lookup(shard[k], k) != hit { m.alive = false; } }
            ensure!(models.iter().any(|m| m.alive), "cache/eviction", "step {}: key {} is {}, least recently used eviction within shards of {} says otherwise", i, hex(&c.keys[k]), if hit { "still present" } else { "gone" }, per);
        }
        let t = done("total_charge", must("total_charge", || cache.get().total_charge())?)? as u128;
        if sweep {
            ensure!(t == found, "cache/charge", "step {}: total charge {}, but the {} retrievable entries have charge {}", i, t, nfound, found);
            if !roomy { cx.label("sweep"); }
            let n = done("slots", must("slots", || cache.get().slots())?)?;
            ensure!(n >= nfound && n >= slots0, "cache/slots", "step {}: {} slots ({} at first) for {} retrievable entries", i, n, slots0, nfound);
        }
        ensure!(!all_fit || t <= per * 32, "cache/over-capacity", "step {}: total charge {} exceeds the capacity {} ({} per shard)", i, t, c.capacity, per);
        for m in models.iter_mut() { if m.total() != t { m.alive = false; } }
        ensure!(models.iter().any(|m| m.alive), "cache/total", "step {}: after {:?} the total charge is {}, expected {}", i, op, t, models[0].total());
    }
    cx.label_if(evicted > 0, "evictions");
    cx.label_if(evicted > 0 && hits > 0, "evictions and hits");
    cx.label_if(per_shard(c.capacity) > usize::MAX / 64, "huge capacity");
    cx.nontrivial_if(evicted > 0 || hits > 0);
    must("cache/drop", || drop(cache))?;
    Ok(())
}

/// A shard with a lot of entries: the table of slots keeps up, and everything stays retrievable that is not erased.
fn crowded_shard(s: &mut Src, cx: &mut Cx) -> Res {
    let n = match s.below(8) { 0 => (1 << 18) + s.idx(50_000), 1 | 2 => s.urange(60_000, 260_000), _ => s.urange(1_000, 60_000) };
    let base = s.u32() & 0xf800_0000;
    let seed = s.u64();
    let length = match s.below(3) { 0 => 0, 1 => s.idx(600), _ => 1 << s.idx(12) };
    let s2 = s.u64();
    cx.start(s, || format!("{} keys of one shard from seed {:#x}, default length {}, then {} in 16 erased and {} in 16 replaced", n, seed, length, s2 & 7, s2 >> 3 & 7));
    cx.nontrivial = true;
    cx.label_if(n > 65536, "over 65536 entries in a shard");
    cx.label_if(n > 1 << 18, "over 262144 entries in a shard");
    cx.evals(n as u64 - 1);
    let key = |i: usize| { let mut x = seed ^ i as u64; key_with_hash(i as u32, base | splitmix(&mut x) as u32 & 0x07ff_ffff) };
    let mut cache = must("cache/new", || ShardLRUCache::<usize>::new_with_capacity(1 << 40, length))?;
    for i in 0..n {
        done("insert", must("insert", || cache.insert(&Slice::from_buf(&key(i)), i, 1))?)?;
        if i % 1021 == 0 || i + 1 == n {
            let slots = done("slots", must("slots", || cache.slots())?)?;
            ensure!(slots > i, "cache/slots", "{} slots for {} retrievable entries", slots, i + 1);
        }
    }
    let t = done("total_charge", must("total_charge", || cache.total_charge())?)?;
    ensure!(t == n, "cache/charge", "total charge {} after inserting {} entries of charge 1", t, n);
    // some are erased, some are replaced, in any order
    let (erased, replaced) = (s2 & 7, s2 >> 3 & 7);
    let fate = |i: usize| { let mut x = seed.rotate_left(17) ^ i as u64; let r = splitmix(&mut x); if r & 15 < erased { 1 } else if r >> 4 & 15 < replaced { 2 } else { 0 } };
    let mut kept = n;
    for i in order_of(n, seed) {
        match fate(i) {
            1 => { kept -= 1; done("erase", must("erase", || cache.erase(&Slice::from_buf(&key(i))))?)?; }
            2 => done("insert", must("insert", || cache.insert(&Slice::from_buf(&key(i)), i + n, 1))?)?,
            _ => {}
        }
    }
    let t = done("total_charge", must("total_charge", || cache.total_charge())?)?;
    ensure!(t == kept, "cache/charge", "total charge {} with {} entries of charge 1 left", t, kept);
    for i in 0..n {
        let v = done("lookup", must("lookup", || cache.lookup(&Slice::from_buf(&key(i))))?)?;
        let want = match fate(i) { 1 => None, 2 => Some(i + n), _ => Some(i) };
        ensure!(v.as_deref().copied() == want, "cache/lost", "entry {} of {} is {:?}, expected {:?}", i, n, v, want);
    }
    Ok(())
}

/// One insertion into a shard full of small entries: as many of the oldest as it takes go, and no others.
fn mass_eviction(s: &mut Src, cx: &mut Cx) -> Res {
    let n = if s.chance(1, 4) { s.urange(60_000, 150_000) } else { s.urange(2, 20_000) };
    let per = n + 1 + s.urange(0, n);
    // at least what fills the share, so that something has to go; an entry that fits
    let big = per - 1 - s.idx(n.min(per - 1));
    let base = s.u32() & 0xf800_0000;
    let seed = s.u64();
    let length = match s.below(3) { 0 => 0, 1 => s.idx(600), _ => 1 << s.idx(12) };
    // before: some of the entries are looked up, which makes them the newest; the values may be held
    let touched = if s.bool() { s.idx(n / 2 + 1) } else { 0 };
    let hold = s.bool();
    cx.start(s, || format!("{} entries of charge 1 in a shard of {}, {} of them touched{}, then one of charge {}, seed {:#x}, default length {}", n, per, touched, if hold { " and held" } else { "" }, big, seed, length));
    cx.nontrivial = true;
    cx.evals(n as u64 - 1);
    let key = |i: usize| { let mut x = seed ^ i as u64; key_with_hash(i as u32, base | splitmix(&mut x) as u32 & 0x07ff_ffff) };
    let cache = must("cache/new", || ShardLRUCache::<usize>::new_with_capacity(per * 32, length))?;
    for i in 0..n { done("insert", must("insert", || cache.insert(&Slice::from_buf(&key(i)), i, 1))?)?; }
    let t = done("total_charge", must("total_charge", || cache.total_charge())?)?;
    ensure!(t == n, "cache/charge", "total charge {} after inserting {} entries of charge 1 into a shard of {}", t, n, per);
    let mut held = vec![];
    for i in 0..touched {
        let v = done("lookup", must("lookup", || cache.lookup(&Slice::from_buf(&key(i))))?)?;
        ensure!(v.as_deref() == Some(&i), "cache/lost", "entry {} of {} is {:?}", i, n, v);
        if hold { held.push(v); }
    }
    done("insert", must("insert", || cache.insert(&Slice::from_buf(&key(n)), n, big))?)?;
    let t = done("total_charge", must("total_charge", || cache.total_charge())?)?;
    // from the oldest: the untouched ones, then those touched
    let gone = (n + big).checked_sub(t).filter(|g| *g <= n);
    let least = (n + big).saturating_sub(per);
    ensure!(gone == Some(least) || gone == Some((n + big + 1).saturating_sub(per)), "cache/total", "total charge {} after an entry of charge {} was added to {} of charge 1 in a shard of {}", t, big, n, per);
    let gone = gone.unwrap();
    cx.label_if(gone > 1024, "over 1024 evictions at once");
    cx.label_if(gone > 65536, "over 65536 evictions at once");
    cx.label_if(gone == 0, "no eviction");
    let mut present = 0;
    for i in 0..=n {
        let age = if i == n { n } else if i < touched { n - touched + i } else { i - touched };
        let v = done("lookup", must("lookup", || cache.lookup(&Slice::from_buf(&key(i))))?)?;
        ensure!(v.is_some() == (age >= gone) && v.as_deref().map_or(true, |x| *x == i), "cache/eviction", "{} entries had to go, the entry that is number {} from the oldest is {:?}", gone, age, v);
        present += v.is_some() as usize;
    }
    let slots = done("slots", must("slots", || cache.slots())?)?;
    ensure!(slots >= present, "cache/slots", "{} slots for {} retrievable entries", slots, present);
    must("cache/drop", || drop(cache))?;
    Ok(())
}

// ---------------------------------------------------------------- C23

fn release(s: &mut Src, cx: &mut Cx) -> Res {
    let roomy = s.chance(1, 3);
    let c = script(s, cx, roomy, true);
    cx.start(s, || show(&c));
    release_of(c, cx)
}
fn long_release(s: &mut Src, cx: &mut Cx) -> Res {
    let c = long_script(s, cx, 600, 1500, true);
    cx.start(s, || show(&c));
    cx.evals(c.ops.len() as u64 - 1);
    release_of(c, cx)
}
fn release_of(c: Script, cx: &mut Cx) -> Res {
    let mut labels: HashSet<&'static str> = HashSet::with_capacity(64);
    let l = &mut labels;
    let drops = Arc::new((0..c.ops.len() + 1).map(|_| AtomicU32::new(0)).collect::<Vec<_>>());
    let inserted: Vec<usize> = c.ops.iter().enumerate().filter(|(_, o)| matches!(o, Op::Insert(..))).map(|x| x.0).collect();
    cx.nontrivial_if(inserted.len() >= 2);
    leak_free("cache", || {
        let count = |id: usize| drops[id].load(Ordering::SeqCst);
        let mut cache = must("cache/new", || Own::new(&c))?;
        let mut latest: Vec<Option<usize>> = vec![None; c.keys.len()];
        let mut key_of: HashMap<usize, usize> = HashMap::new();
        let mut held: Vec<Arc<Val>> = vec![];
        for (i, op) in c.ops.iter().enumerate() {
            match op {
                Op::Insert(k, ch) => {
                    done("insert", must("insert", || cache.get().insert(&Slice::from_buf(&c.keys[*k]), Val::new(i, &drops), *ch))?)?;
                    latest[*k] = Some(i);
                    key_of.insert(i, *k);
                }
                Op::Erase(k) => { done("erase", must("erase", || cache.get_mut().erase(&Slice::from_buf(&c.keys[*k])))?)?; latest[*k] = None; }
                Op::Prune => { done("prune", must("prune", || cache.get_mut().prune())?)?; for x in latest.iter_mut() { *x = None; } l.insert("prune"); }
                Op::Lookup(k) | Op::Hold(k) => {
                    let v = done("lookup", must("lookup", || cache.get().lookup(&Slice::from_buf(&c.keys[*k])))?)?;
                    if let Some(v) = v {
                        ensure!(v.id < drops.len() && v.intact() && count(v.id) == 0, "cache/use-after-release", "step {}: the value returned for key {} has been released", i, hex(&c.keys[*k]));
                        if matches!(op, Op::Hold(_)) { held.push(v); l.insert("held"); }
                    }
                }
                Op::Release(n) => if !held.is_empty() { let v = held.swap_remove(n % held.len()); must("value/drop", || drop(v))?; },
                Op::Sweep(o) => {
                    for k in order_of(c.keys.len(), *o) {
                        let v = done("lookup", must("lookup", || cache.get().lookup(&Slice::from_buf(&c.keys[k])))?)?;
                        match v {
                            Some(v) => ensure!(v.id < drops.len() && v.intact() && count(v.id) == 0, "cache/use-after-release", "step {}: the value returned for key {} has been released", i, hex(&c.keys[k])),
                            None => if let Some(id) = latest[k] {
                                ensure!(count(id) == 1 || held.iter().any(|h| h.id == id), "cache/not-released", "step {}: key {} is gone from the cache, but its value is not released", i, hex(&c.keys[k]));
                                l.insert("evicted");
                            },
                        }
                    }
                }
            }
            for (id, k) in &key_of {
                let n = count(*id);
                ensure!(n <= 1, "cache/released-twice", "step {}: the value of insertion {} was released {} times", i, id, n);
                if let Some(h) = held.iter().find(|h| h.id == *id) {
                    ensure!(n == 0 && h.intact(), "cache/released-while-held", "step {}: the value of insertion {} was released while the caller holds it", i, id);
                    if latest[*k] != Some(*id) { l.insert("held after its removal"); }
                } else if latest[*k] != Some(*id) {
                    ensure!(n == 1, "cache/not-released", "step {}: after {:?} the value of insertion {} is neither in the cache nor held, but not released", i, op, id);
                    l.insert("released on removal");
                }
            }
        }
        must("cache/drop", || drop(cache))?;
        for (id, _) in &key_of {
            let h = held.iter().find(|h| h.id == *id);
            if let Some(h) = h { ensure!(count(*id) == 0 && h.intact(), "cache/released-while-held", "dropping the cache released the value of insertion {} that the caller holds", id); l.insert("held beyond the cache"); }
            else { ensure!(count(*id) == 1, "cache/not-released", "after dropping the cache the value of insertion {} was released {} times", id, count(*id)); }
        }
        must("value/drop", || drop(held))?;
        for (id, _) in &key_of { ensure!(count(*id) == 1, "cache/not-released", "the value of insertion {} was released {} times in the end", id, count(*id)); }
        Ok(())
    })?;
    for x in labels { cx.label(x); }
    Ok(())
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Copy, Debug)]
enum TOp { Insert(usize, usize), Lookup(usize), Total, Slots, Pause(u32) }

#[derive(Clone, Copy)]
struct Ev { key: usize, id: usize, start: u64, end: u64, charge: usize }

fn concurrent(s: &mut Src, cx: &mut Cx) -> Res {
    let nkeys = s.urange(1, 10);
    let mut keys = pool(s, cx, nkeys);
    keys.retain(|k| k != b"flood");
    if keys.is_empty() { keys.push(b"k".to_vec()); }
    let roomy = s.bool();
    let capacity = if roomy { 1 << 30 } else { 32 * s.urange(2, 24) };
    let per = per_shard(capacity);
    let threads = s.urange(2, 6);
    let jitter = *s.pick(&[0u32, 3, 12, 48]);
    let phases = s.urange(1, 2);
    let style = s.below(4);
    let plan: Vec<Vec<Vec<TOp>>> = (0..phases).map(|_| (0..threads).map(|t| {
        let n = s.urange(5, 60);
        // one seed per thread keeps the choice sequence short
        let mut x = s.u64();
        (0..n).map(|_| {
            let r = splitmix(&mut x);
            let k = (r >> 8) as usize % keys.len();
            let w = match style { 0 => [6, 3, 0, 1], 1 => [2, 8, 1, 0], 2 => if t == 0 { [10, 0, 1, 0] } else { [0, 10, 0, 1] }, _ => [4, 4, 1, 1] };
            let mut p = r % 10;
            if p < w[0] { return TOp::Insert(k, if roomy { (r >> 40) as usize % 5 } else { (r >> 40) as usize % (per / 2 + 1) + 1 }); }
            p -= w[0];
            if p < w[1] { return TOp::Lookup(k); }
            p -= w[1];
            if p < w[2] { return if r >> 50 & 1 == 0 { TOp::Total } else { TOp::Slots }; }
            TOp::Pause((r >> 33) as u32 % 400)
        }).collect()
    }).collect()).collect();
    let erase: Vec<usize> = { let n = s.idx(3); (0..n).map(|_| s.idx(keys.len())).collect() };
    let rounds = s.urange(1, 4);
    cx.start(s, || clip(format!("capacity {} keys {} threads {} rounds {} interrupted at one in {} allocations plan {:?}", capacity, keys.len(), threads, rounds, jitter, plan), 1400));
    cx.label_if(jitter > 0, "interrupted at allocations");
    cx.nontrivial_if(plan.iter().any(|p| p.iter().filter(|t| t.iter().any(|o| matches!(o, TOp::Insert(..)))).count() >= 1 && p.iter().filter(|t| t.iter().any(|o| !matches!(o, TOp::Pause(_)))).count() >= 2));
    for _ in 0..rounds { concurrent_round(&keys, capacity, per, roomy, threads, jitter, &plan, &erase, cx)?; }
    cx.evals(rounds as u64 - 1);
    Ok(())
}

fn concurrent_round(keys: &[Vec<u8>], capacity: usize, per: usize, roomy: bool, threads: usize, jitter: u32, plan: &[Vec<Vec<TOp>>], erase: &[usize], cx: &mut Cx) -> Res {
    let total_ops: usize = plan.iter().flatten().map(|t| t.len()).sum();
    let extra = 200;
    let drops = Arc::new((0..total_ops + extra).map(|_| AtomicU32::new(0)).collect::<Vec<_>>());
    let clock = AtomicU64::new(1);
    let tick = || clock.fetch_add(1, Ordering::SeqCst);
    let mut cache = must("cache/new", || ShardLRUCache::<Val>::new_arc_with_capacity(capacity, 0))?;
    let mut inserts: Vec<Ev> = vec![];
    // last erase of each key (tick)
    let mut erased: Vec<u64> = vec![0; keys.len()];
    let mut next_id = 0;
    let all_keys: Vec<Slice> = keys.iter().map(|k| Slice::from_buf(k)).collect();
    for (ph, threads_ops) in plan.iter().enumerate() {
        let ready = AtomicU32::new(0);
        let go = AtomicBool::new(false);
        let bases: Vec<usize> = threads_ops.iter().map(|t| { let b = next_id; next_id += t.len(); b }).collect();
        let results: Vec<Result<(Vec<Ev>, Vec<Ev>), Fail>> = std::thread::scope(|sc| {
            let hs: Vec<_> = threads_ops.iter().enumerate().map(|(t, ops)| {
                let (cache, drops, ready, go, tick, base) = (cache.clone(), drops.clone(), &ready, &go, &tick, bases[t]);
                sc.spawn(move || -> Result<(Vec<Ev>, Vec<Ev>), Fail> {
                    let mut ins = vec![];
                    let mut looks = vec![];
                    // keys are plain values: each thread has its own
                    let ks: Vec<Slice> = keys.iter().map(|k| Slice::from_buf(k)).collect();
                    ready.fetch_add(1, Ordering::SeqCst);
                    while !go.load(Ordering::Acquire) { std::hint::spin_loop(); }
                    crate::alloc::jitter((base as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ t as u64, jitter);
                    for (i, op) in ops.iter().enumerate() {
                        match *op {
                            TOp::Insert(k, ch) => {
                                let id = base + i;
                                let v = Val::new(id, &drops);
                                let start = tick();
                                let r = must("insert", || cache.insert(&ks[k], v, ch))?;
                                let end = tick();
                                done("insert", r)?;
                                ins.push(Ev { key: k, id, start, end, charge: ch });
                            }
                            TOp::Lookup(k) => {
                                let start = tick();
                                let r = must("lookup", || cache.lookup(&ks[k]))?;
                                let end = tick();
                                let v = done("lookup", r)?;
                                if let Some(v) = &v { ensure!(v.id < drops.len() && v.intact() && drops[v.id].load(Ordering::SeqCst) == 0, "concurrent/released", "a value returned to a thread has been released"); }
                                looks.push(Ev { key: k, id: v.map_or(usize::MAX, |v| v.id), start, end, charge: 0 });
                            }
                            TOp::Total => {
                                let t = done("total_charge", must("total_charge", || cache.total_charge())?)?;
                                ensure!(t <= per * 32, "concurrent/over-capacity", "total charge {} with capacity {}", t, capacity);
                            }
                            TOp::Slots => { done("slots", must("slots", || cache.slots())?)?; }
                            TOp::Pause(n) => if n % 4 == 0 { std::thread::yield_now() } else { for _ in 0..n { std::hint::spin_loop() } },
                        }
                    }
                    Ok((ins, looks))
                })
            }).collect();
            while (ready.load(Ordering::SeqCst) as usize) < threads.min(threads_ops.len()) { std::hint::spin_loop(); }
            go.store(true, Ordering::Release);
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fail("concurrent/panic", "a thread panicked".into()))).collect()
        });
        let mut looks: Vec<Ev> = vec![];
        for r in results { let (i, l) = r?; inserts.extend(i); looks.extend(l); }
        // lookups after everything has ended belong to the same history
        for k in 0..keys.len() {
            let start = tick();
            let r = must("lookup", || cache.lookup(&all_keys[k]))?;
            let end = tick();
            looks.push(Ev { key: k, id: done("lookup", r)?.map_or(usize::MAX, |v| v.id), start, end, charge: 0 });
        }
        let mut overlapping = 0u64;
        for l in &looks {
            let same: Vec<&Ev> = inserts.iter().filter(|e| e.key == l.key).collect();
            overlapping += same.iter().any(|e| e.start < l.end && e.end > l.start) as u64;
            if l.id == usize::MAX {
                if roomy {
                    if let Some(e) = same.iter().find(|e| e.end < l.start && e.start > erased[l.key]) {
                        return fail("concurrent/lost", format!("phase {}: a lookup of {} found nothing although insertion {} had completed and nothing removes it", ph, hex(&keys[l.key]), e.id));
                    }
                }
                continue;
            }
            let Some(e) = inserts.iter().find(|e| e.id == l.id) else { return fail("concurrent/invented", format!("phase {}: a lookup returned a value nobody inserted", ph)) };
            ensure!(e.key == l.key, "concurrent/wrong-key", "phase {}: a lookup of {} returned the value inserted under {}", ph, hex(&keys[l.key]), hex(&keys[e.key]));
            ensure!(e.start < l.end, "concurrent/future", "phase {}: a lookup returned a value inserted only later", ph);
            ensure!(erased[l.key] < e.start || e.start > erased[l.key], "concurrent/erased", "phase {}: a lookup of {} returned a value erased before", ph, hex(&keys[l.key]));
            if let Some(w) = same.iter().find(|w| w.start > e.end && w.end < l.start) {
                return fail("concurrent/stale", format!("phase {}: a lookup of {} returned insertion {} although insertion {} had overwritten it before", ph, hex(&keys[l.key]), e.id, w.id));
            }
        }
        cx.label_if(overlapping > 0, "a lookup overlaps an insert of its key");
        cx.evals(looks.len() as u64);
        // contents and charges after the threads are done
        consistent(&cache, &all_keys, &inserts, &drops, per)?;
        let m = match Arc::get_mut(&mut cache) { Some(m) => m, None => return fail("concurrent/handle", "the cache is still shared after its threads ended".into()) };
        for k in erase {
            done("erase", must("erase", || m.erase(&all_keys[*k]))?)?;
            erased[*k] = tick();
            inserts.retain(|e| e.key != *k);
        }
        consistent(&cache, &all_keys, &inserts, &drops, per)?;
    }
    // the shard's lists are intact: filling it pushes everything older out
    if !roomy {
        let used: HashSet<u32> = keys.iter().map(|k| ldb_hash(k, 0) >> 27).collect();
        let mut id = total_ops;
        for sh in used {
            for i in 0..per.min(20) {
                if id >= total_ops + extra { break; }
                let k = key_with_hash(0xffff_0000 + i as u32, sh << 27 | (i as u32 * 0x9e37 & 0x07ff_ffff));
                if keys.contains(&k) { continue; }
                done("insert", must("insert", || cache.insert(&Slice::from_buf(&k), Val::new(id, &drops), per.div_ceil(20)))?)?;
                id += 1;
            }
        }
        if id < total_ops + extra && per <= 20 {
            for (k, s) in keys.iter().zip(&all_keys) {
                let v = done("lookup", must("lookup", || cache.lookup(s))?)?;
                ensure!(v.is_none() || inserts.iter().any(|e| e.id == v.as_ref().unwrap().id && e.charge == 0), "concurrent/not-evicted", "key {} survives {} newer entries of charge 1 in a shard of {}", hex(k), per, per);
            }
            cx.label("flushed by newer entries");
        }
    }
    must("cache/drop", || drop(cache))?;
    for e in &inserts { let n = drops[e.id].load(Ordering::SeqCst); ensure!(n == 1, "concurrent/release", "after the cache is gone the value of insertion {} was released {} times", e.id, n); }
    for (id, d) in drops.iter().enumerate() { let n = d.load(Ordering::SeqCst); ensure!(n <= 1, "concurrent/release", "the value of insertion {} was released {} times", id, n); }
    Ok(())
}

fn consistent(cache: &Arc<ShardLRUCache<Val>>, keys: &[Slice], inserts: &[Ev], drops: &Arc<Vec<AtomicU32>>, per: usize) -> Res {
    let mut sum = 0;
    let mut found = HashSet::new();
    for k in keys {
        if let Some(v) = done("lookup", must("lookup", || cache.lookup(k))?)? {
            let e = match inserts.iter().find(|e| e.id == v.id) { Some(e) => e, None => return fail("concurrent/erased", format!("key {} returns insertion {} after it was erased", hex(&**k), v.id)) };
            sum += e.charge;
            found.insert(v.id);
        }
    }
    let t = done("total_charge", must("total_charge", || cache.total_charge())?)?;
    ensure!(t == sum, "concurrent/charge", "with no operation running the total charge is {}, the {} retrievable entries have {}", t, found.len(), sum);
    ensure!(t <= per * 32, "concurrent/over-capacity", "total charge {} above 32 shards of {}", t, per);
    for e in inserts {
        let n = drops[e.id].load(Ordering::SeqCst);
        ensure!(n == !found.contains(&e.id) as u32, "concurrent/release", "the value of insertion {} is {} the cache and was released {} times", e.id, if found.contains(&e.id) { "in" } else { "not in" }, n);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C21", rule: "freshness, long_freshness: at least one lookup finds a value; crowded_shard: every case", assumptions: &["charges sum to less than usize::MAX"],
            subs: vec![Sub { name: "freshness", quick: 50000, thorough: 3000000, run: freshness }, Sub { name: "long_freshness", quick: 400, thorough: 30000, run: long_freshness }, Sub { name: "crowded_shard", quick: 16, thorough: 600, run: crowded_shard }] },
        Prop { id: "C22", rule: "capacity, long_capacity: at least one eviction or hit; crowded_shard, mass_eviction: every case", assumptions: &["charges sum to less than usize::MAX", "an entry may be evicted already when usage reaches the shard's share exactly, or only when it exceeds it, but always the same way"],
            subs: vec![Sub { name: "capacity", quick: 50000, thorough: 3000000, run: capacity }, Sub { name: "long_capacity", quick: 300, thorough: 20000, run: long_capacity }, Sub { name: "crowded_shard", quick: 16, thorough: 600, run: crowded_shard }, Sub { name: "mass_eviction", quick: 120, thorough: 6000, run: mass_eviction }] },
        Prop { id: "C23", rule: "at least two insertions", assumptions: &["charges sum to less than usize::MAX"],
            subs: vec![Sub { name: "release", quick: 40000, thorough: 2500000, run: release }, Sub { name: "long_release", quick: 200, thorough: 15000, run: long_release }] },
        Prop { id: "C24", rule: "a phase with an inserting thread and another active thread", assumptions: &["schedules are sampled by running real threads with generated operations and pauses, not enumerated"],
            subs: vec![Sub { name: "threads", quick: 4500, thorough: 300000, run: concurrent }] },
    ]
}
