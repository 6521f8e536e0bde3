//! C17-C20, C29: arena and slices over it, skip list, memtable, lookup keys, version edits.
use super::bytes::{leak_free, related};
use crate::engine::*;
use crate::ensure;
use crate::refs::{get_varint, put_varint};
use level_db_rust::db::db_format::{pack_sequence_and_type, InternalKey, LookupKey, ParsedInternalKey, ValueType};
use level_db_rust::db::mem_table::MemTable;
use level_db_rust::db::skip_list::SkipList;
use level_db_rust::db::version_edit::VersionEdit;
use level_db_rust::util::arena::{ArenaAllocLike, ArenaRef};
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::slice::Slice;
use level_db_rust::util::unsafe_slice::{TryIntoUnsafeSlice, UnsafeSlice};
use level_db_rust::util::Arena;
use level_db_rust::verif_hooks::{set_rng, Comparator, DataIterator};
use rand::RngCore;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- C17

fn request(s: &mut Src, left: &mut usize) -> usize {
    // sizes around what a plain bump allocator would have left, and around the block and large-request limits
    let n = match s.weighted(&[6, 3, 2, 2, 2, 1]) {
        0 => s.idx(65),
        1 => s.idx(700),
        2 => (1024 + s.idx(5)).saturating_sub(2),
        3 => (*left + s.idx(5)).saturating_sub(2),
        4 => (4096 + s.idx(5)).saturating_sub(2),
        _ => s.idx(20000),
    };
    if n <= *left { *left -= n } else if n <= 1024 { *left = 4096 - n }
    n
}

fn arena_ops(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 60);
    let mut left = 0;
    let ops: Vec<(usize, Option<usize>)> = (0..n).map(|_| {
        let align = if s.chance(2, 5) { Some(1usize << if s.chance(1, 30) { s.idx(20) } else { s.idx(13) }) } else { None };
        (request(s, &mut left), align)
    }).collect();
    let salt = s.u8();
    cx.start(s, || format!("allocations (size, alignment) {:?}", ops));
    arena_run(ops, salt, 8, cx)
}

/// Many allocations, some of them of several MiB, from few choices.
fn long_arena(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 3000);
    let seed = s.u64();
    let aligned = s.below(4);
    let style = s.idx(6);
    let n = if style == 5 { n * 7 } else { n };
    let salt = s.u8();
    let mut x = seed;
    let mut total = 0;
    let mut left = 0usize;
    let mut ops = vec![];
    for _ in 0..n {
        let r = splitmix(&mut x);
        let q = (r >> 16) as usize;
        let size = match style {
            0 => q % 40,
            1 => match r % 50 { 0 => q % 5_000_000, 1..=5 => q % 70_000, _ => q % 3000 },
            2 => match r % 8 { 0 => 65536 + q % 5 - 2, 1 => (1 << 20) + q % 5 - 2, 2 => 4096 * (1 + q % 20) + q % 3 - 1, _ => q % 300 },
            3 => (left + q % 3).saturating_sub(1), // exactly fills, or just misses, a plain bump allocator's block
            5 => 1025 + q % 900, // a block of its own each: nothing to spare in the accounting
            _ => match r % 4 { 0 => 0, 1 => 1 + q % 8, 2 => 1000 + q % 50, _ => q % 1500 },
        };
        total += size;
        if total > 24_000_000 { break; }
        if size <= left && size > 0 { left -= size } else if size <= 1024 { left = 4096usize.saturating_sub(size) }
        if style == 3 && left < 100 && r % 3 > 0 { left = 1024; }
        let align = if aligned > 0 && (r >> 8) % 4 < aligned { Some(1usize << ((r >> 12) % 5)) } else { None };
        ops.push((size, align));
    }
    cx.start(s, || format!("{} allocations (size, alignment) {:?} and so on", ops.len(), ops.iter().take(60).collect::<Vec<_>>()));
    let n = ops.len();
    cx.label_if(n > 1000, "over 1000 allocations");
    cx.label_if(ops.iter().any(|o| o.0 > 1 << 20), "an allocation over 1 MiB");
    arena_run(ops, salt, n.max(4) / 3 + 1, cx)
}

/// Requests of gigabytes among small ones: the accounting keeps up. Only the edges of the huge ones are touched.
fn huge_arena(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 8);
    let mut total = 0u64;
    let ops: Vec<(usize, Option<usize>)> = (0..n).map(|_| {
        let size = match s.below(5) { 0 => 1u64 << 31, 1 => 1 << 32, 2 => s.range(1, 3 << 30), 3 => (1u64 << s.urange(12, 32)) + s.below(5) - 2, _ => s.below(6000) };
        let size = if total + size > 7 << 30 { 100 } else { size };
        total += size;
        (size as usize, if s.chance(1, 3) { Some(1usize << s.idx(13)) } else { None })
    }).collect();
    cx.start(s, || format!("allocations (size, alignment) {:?}", ops));
    cx.nontrivial_if(total > 1 << 30);
    cx.label_if(total >= 1 << 32, "4 GiB or more in all");
    cx.label_if(ops.iter().any(|o| o.0 >= 1 << 32), "4 GiB or more at once");
    struct Limit;
    impl Drop for Limit { fn drop(&mut self) { crate::alloc::LIVE_LIMIT.store(crate::alloc::DEFAULT_LIMIT, std::sync::atomic::Ordering::Relaxed); } }
    crate::alloc::LIVE_LIMIT.store(16 << 30, std::sync::atomic::Ordering::Relaxed);
    let _limit = Limit;
    leak_free("arena", || {
        let mut arena = must("arena/new", Arena::default)?;
        let mut live: Vec<(usize, usize, u8)> = vec![];
        let mut usage = must("arena/usage", || arena.memory_usage())?;
        let mut total = 0usize;
        for (i, (n, a)) in ops.iter().enumerate() {
            let (p, got) = must("arena/allocate", || { let b = match a { Some(a) => arena.allocate_align(*n, *a), None => arena.allocate(*n) }; (b.as_mut_ptr() as usize, b.len()) })?;
            ensure!(got == *n, "arena/size", "request {} for {} bytes gave {}", i, n, got);
            if *n > 0 {
                ensure!(live.iter().all(|(q, m, _)| p + n <= *q || q + m <= p), "arena/overlap", "request {} for {} bytes overlaps an earlier allocation", i, n);
                for o in [0, n / 2, n - 1] { unsafe { *((p + o) as *mut u8) = i as u8 + 1; } }
                live.push((p, *n, i as u8 + 1));
            }
            total += n;
            let u = must("arena/usage", || arena.memory_usage())?;
            ensure!(u >= usage, "arena/usage-decreased", "memory usage went from {} to {}", usage, u);
            ensure!(u >= total, "arena/usage-too-small", "memory usage is {} after handing out {} bytes", u, total);
            usage = u;
        }
        for (p, n, f) in &live { for o in [0, n / 2, n - 1] { ensure!(unsafe { *((p + o) as *const u8) } == *f, "arena/content", "byte {} of an allocation of {} bytes changed", o, n); } }
        must("arena/drop", || drop(arena))
    })
}

fn arena_run(ops: Vec<(usize, Option<usize>)>, salt: u8, every: usize, cx: &mut Cx) -> Res {
    cx.nontrivial_if(ops.iter().filter(|o| o.0 > 0).count() >= 2);
    for (n, a) in &ops {
        cx.label_if(*n == 0, "zero size");
        cx.label_if(*n > 4096, "larger than a block");
        cx.label_if(*n > 1024 && *n <= 4096, "more than a quarter of a block");
        cx.label_if(a.map_or(false, |a| a > 16), "alignment above 16");
    }
    let mut known: Option<(usize, usize, usize)> = None;
    let k = &mut known;
    leak_free("arena", move || {
        let mut arena = must("arena/new", Arena::default)?;
        let mut live: BTreeMap<usize, (usize, u8)> = BTreeMap::new();
        let mut ends: BTreeSet<usize> = BTreeSet::new();
        let mut total = 0usize;
        let mut usage = must("arena/usage", || arena.memory_usage())?;
        let intact = |live: &BTreeMap<usize, (usize, u8)>| -> Res {
            for (p, (n, f)) in live {
                let b = unsafe { std::slice::from_raw_parts(*p as *const u8, *n) };
                if let Some(i) = b.iter().enumerate().position(|(i, x)| *x != f.wrapping_add(i as u8)) {
                    return fail("arena/content", format!("byte {} of an allocation of {} bytes changed", i, n));
                }
            }
            Ok(())
        };
        for (i, (n, a)) in ops.iter().enumerate() {
            let (p, got) = must("arena/allocate", || { let b = match a { Some(a) => arena.allocate_align(*n, *a), None => arena.allocate(*n) }; (b.as_mut_ptr() as usize, b.len()) })?;
            ensure!(got == *n, "arena/size", "request {} for {} bytes gave {}", i, n, got);
            ensure!(p != 0, "arena/null", "request {} for {} bytes gave a null pointer", i, n);
            let in_block = ends.contains(&p);
            if *n > 0 {
                let prev = live.range(..=p).next_back().map(|(q, (m, _))| q + m);
                let next = live.range(p..).next().map(|(q, _)| *q);
                ensure!(prev.map_or(true, |e| e <= p) && next.map_or(true, |q| p + n <= q), "arena/overlap", "request {} for {} bytes overlaps an earlier allocation", i, n);
                if let Some(a) = a {
                    if p % a != 0 {
                        ensure!(in_block, "arena/misaligned-new-block", "request {} for {} bytes aligned to {} is not aligned, at the start of a new block", i, n, a);
                        if k.is_none() { *k = Some((i, *n, *a)); }
                    }
                }
                let f = salt.wrapping_add((i as u8).wrapping_mul(31));
                let b = unsafe { std::slice::from_raw_parts_mut(p as *mut u8, *n) };
                for (j, x) in b.iter_mut().enumerate() { *x = f.wrapping_add(j as u8); }
                live.insert(p, (*n, f));
            }
            ends.insert(p + n);
            total += n;
            let u = must("arena/usage", || arena.memory_usage())?;
            ensure!(u >= usage, "arena/usage-decreased", "memory usage went from {} to {}", usage, u);
            ensure!(u >= total, "arena/usage-too-small", "memory usage is {} after handing out {} bytes", u, total);
            usage = u;
            if i % every == 3 {
                intact(&live)?;
                // the arena may move
                let b = Box::new(std::mem::take(&mut arena));
                arena = *b;
            }
        }
        intact(&live)?;
        must("arena/drop", || drop(arena))?;
        Ok(())
    })?;
    match known {
        Some((i, n, a)) => fail("arena/misaligned-in-block", format!("request {} for {} bytes aligned to {} is not aligned, behind an earlier allocation of the same block", i, n, a)),
        None => Ok(()),
    }
}

#[derive(Debug, Clone)]
enum UOp { New(u8, Vec<u8>), Text(bool, String), Sub(usize, usize, usize), Copy(Vec<u8>), ToSlice(usize) }

fn unsafe_slices(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 40);
    let ops: Vec<UOp> = (0..n).map(|_| match s.below(6) {
        0 => { let most = if s.chance(1, 6) { 6000 } else { 100 }; UOp::New(s.idx(3) as u8, s.blob(most)) }
        1 => UOp::Text(s.bool(), s.text(30)),
        2 | 3 => UOp::Sub(s.idx(10), s.idx(45), if s.chance(1, 12) { usize::MAX - s.idx(40) } else { s.idx(45) }),
        4 => UOp::Copy(s.blob(300)),
        _ => UOp::ToSlice(s.idx(10)),
    }).collect();
    cx.start(s, || clip(format!("{:?}", ops), 1200));
    slices_run(ops, 1, cx)
}

fn long_slices(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 600);
    let seed = s.u64();
    let cap = *s.pick(&[50usize, 5000, 140_000]);
    let mut x = seed;
    let mut total = 0;
    let ops: Vec<UOp> = (0..n).map(|_| {
        let r = splitmix(&mut x);
        let q = splitmix(&mut x) as usize;
        let mut y = q as u64;
        let mut len = if r & 8 == 0 { q % (cap + 1) } else { q % 60 };
        total += len;
        if total > 6_000_000 { len = 3; }
        match r % 6 {
            0 | 1 => UOp::New((r >> 8) as u8 % 3, (0..len).map(|_| splitmix(&mut y) as u8).collect()),
            2 | 3 => UOp::Sub((r >> 8) as usize % 600, q % (cap + 1), (q >> 20) % (cap + 1)),
            4 => UOp::Copy((0..len).map(|_| splitmix(&mut y) as u8).collect()),
            _ => UOp::ToSlice((r >> 8) as usize % 600),
        }
    }).collect();
    cx.start(s, || format!("{} operations from seed {:#x}, up to {} bytes", n, seed, cap));
    cx.label_if(cap > 65536, "slices over 64 KiB");
    slices_run(ops, n / 4 + 1, cx)
}

fn slices_run(ops: Vec<UOp>, every: usize, cx: &mut Cx) -> Res {
    cx.nontrivial_if(ops.len() >= 2);
    let mut labels: Vec<&'static str> = Vec::with_capacity(100);
    let l = &mut labels;
    let r = leak_free("slices over an arena", move || {
        let arena: ArenaRef = Arc::new(Mutex::new(Arena::default()));
        let mut real: Vec<(UnsafeSlice, Vec<u8>)> = vec![];
        let mut owned: Vec<(Slice, Vec<u8>)> = vec![];
        let mut bytes = 0;
        for (at, op) in ops.iter().enumerate() {
            match op {
                UOp::New(k, b) => {
                    let mut src = b.clone();
                    let a = arena.clone();
                    let u = must("unsafe_slice/new", || match k { 0 => UnsafeSlice::new_with_arena(&src, a), 1 => UnsafeSlice::new_with_arena(src.clone(), a), _ => UnsafeSlice::new_with_arena(Slice::from_buf(&src), a) })?;
                    let u = u.map_err(|e| Fail { sig: "unsafe_slice/new".into(), msg: format!("refused: {}", e.to_string()) })?;
                    for x in src.iter_mut() { *x ^= 0xff; }
                    bytes += b.len();
                    real.push((u, b.clone()));
                }
                UOp::Text(k, t) => {
                    let a = arena.clone();
                    let u = must("unsafe_slice/new", || if *k { t.as_str().try_into_unsafe_slice(a) } else { t.clone().try_into_unsafe_slice(a) })?;
                    let u = u.map_err(|e| Fail { sig: "unsafe_slice/new".into(), msg: format!("refused: {}", e.to_string()) })?;
                    bytes += t.len();
                    real.push((u, t.as_bytes().to_vec()));
                }
                UOp::Sub(i, st, n) => {
                    if real.is_empty() { continue; }
                    let (u, m) = real[i % real.len()].clone();
                    let ok = st.checked_add(*n).map_or(false, |e| e <= m.len());
                    match guard(|| unsafe { u.sub_slice(*st, *n) }) {
                        Ok(r) => {
                            ensure!(ok, "unsafe_slice/sub", "sub_slice({}, {}) of {} bytes was not refused", st, n, m.len());
                            l.push("sub-slice");
                            if st + n == m.len() && *n > 0 { l.push("sub-slice reaching the end"); }
                            real.push((r, m[*st..st + n].to_vec()));
                        }
                        Err(e) => { ensure!(!ok, "unsafe_slice/sub", "sub_slice({}, {}) of {} bytes failed: {}", st, n, m.len(), e); l.push("out of range, refused"); }
                    }
                }
                UOp::Copy(b) => {
                    let src = Slice::from_buf(b);
                    let c = must("slice/copy_with_arena", || src.copy_with_arena(arena.clone()))?;
                    drop(src);
                    owned.push((c, b.clone()));
                    l.push("copied over an arena");
                }
                UOp::ToSlice(i) => {
                    if real.is_empty() { continue; }
                    let (u, m) = real[i % real.len()].clone();
                    owned.push((must("unsafe_slice/to_slice", || u.to_slice())?, m));
                }
            }
            if at % every != every - 1 && at + 1 != ops.len() { continue; }
            for (u, m) in &real {
                ensure!(u.len() == m.len(), "unsafe_slice/len", "length {} expected {}", u.len(), m.len());
                ensure!(u.as_ref() == &m[..], "unsafe_slice/content", "after {:?} a slice holds {}, expected {}", op, hex(u.as_ref()), hex(m));
            }
            for (u, m) in &owned { ensure!(&**u == &m[..], "slice/content", "after {:?} an owned slice holds {}, expected {}", op, hex(&**u), hex(m)); }
            let u = arena.lock().map_err(|_| Fail { sig: "arena/poisoned".into(), msg: "the arena lock is poisoned".into() })?.memory_usage();
            ensure!(u >= bytes, "arena/usage-too-small", "memory usage {} with {} bytes of slices", u, bytes);
        }
        for (u, m) in &real {
            if let Ok(t) = std::str::from_utf8(m) {
                ensure!(must("unsafe_slice/as_str", || u.as_str() == t)?, "unsafe_slice/as_str", "as_str of {:?}", t);
                ensure!(must("unsafe_slice/display", || format!("{}", u))? == t, "unsafe_slice/display", "display of {:?}", t);
            }
        }
        drop(real);
        must("arena/drop", || drop(arena))?;
        for (u, m) in &owned { ensure!(&**u == &m[..], "slice/content", "after the arena is gone an owned slice holds {}, expected {}", hex(&**u), hex(m)); }
        must("slice/drop", || drop(owned))?;
        Ok(())
    });
    for x in labels { cx.label(x); }
    r
}

// ---------------------------------------------------------------- C18

/// Random bits for the heights of the skip list's towers.
struct Heights { mode: u64, state: u64 }
impl RngCore for Heights {
    fn next_u32(&mut self) -> u32 {
        let r = splitmix(&mut self.state);
        match self.mode {
            0 => r as u32,
            1 => 0,
            2 => u32::MAX,
            // mostly low with rare full towers
            3 => if self.state % 7 == 0 { u32::MAX } else { r as u32 & if r >> 60 == 0 { u32::MAX } else { 0 } },
            // mostly high
            _ => if r >> 61 == 0 { 0 } else { u32::MAX },
        }
    }
    fn next_u64(&mut self) -> u64 { (self.next_u32() as u64) << 32 | self.next_u32() as u64 }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = self.next_u32() as u8; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
struct ResetRng;
impl Drop for ResetRng { fn drop(&mut self) { set_rng(None) } }

/// An order on keys: bytewise, reversed, ignoring ASCII case, or shorter keys first.
#[derive(Clone, Copy, Debug)]
pub struct Order(pub u8);
impl Order {
    pub fn cmp(&self, a: &[u8], b: &[u8]) -> Ordering {
        match self.0 {
            0 => a.cmp(b),
            1 => b.cmp(a),
            2 => a.to_ascii_lowercase().cmp(&b.to_ascii_lowercase()),
            _ => a.len().cmp(&b.len()).then_with(|| a.cmp(b)),
        }
    }
}
impl Comparator for Order {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ordering> { Some(self.cmp(a, b)) }
    fn get_name(&self) -> String { "order".into() }
    fn find_shortest_separator(&self, s: &String, _l: &Slice) -> String { s.clone() }
    fn find_short_successor(&self, k: &String) -> String { k.clone() }
}

#[derive(Debug, Clone)]
enum LOp { Insert(Vec<u8>), Again(usize), Contains(Vec<u8>), Walk, Seeks, Open, Step(usize, usize) }

fn skip_list(s: &mut Src, cx: &mut Cx) -> Res {
    let big = s.chance(1, 150);
    let n = if big { s.urange(200, 1500) } else { s.len(70) };
    let (mode, st) = (s.below(5), s.u64());
    let order = Order(s.idx(4) as u8);
    let text = s.chance(1, 6);
    let mut pool: Vec<Vec<u8>> = if text { (0..12).map(|_| s.text(8).into_bytes()).collect() } else { related(s, 16) };
    if order.0 == 2 { for k in pool.iter_mut() { if s.bool() { k.make_ascii_uppercase(); } } }
    let ops: Vec<LOp> = (0..n).map(|_| match s.weighted(if big { &[40, 1, 4, 0, 0, 1, 1] } else { &[8, 2, 4, 1, 1, 1, 2] }) {
        0 => { let k = if s.chance(3, 5) { s.pick(&pool).clone() } else if text { s.text(8).into_bytes() } else if big { s.u64().to_be_bytes().to_vec() } else { s.blob(20) }; LOp::Insert(k) }
        1 => LOp::Again(s.idx(64)),
        2 => LOp::Contains(if s.bool() { s.pick(&pool).clone() } else { s.blob(12) }),
        3 => LOp::Walk,
        4 => LOp::Seeks,
        5 => LOp::Open,
        _ => LOp::Step(s.idx(4), s.urange(1, 5)),
    }).collect();
    cx.start(s, || clip(format!("order {} heights {} ops {:?}", order.0, mode, ops), 1200));
    let _reset = ResetRng;
    set_rng(Some(Box::new(Heights { mode, state: st })));
    let arena: ArenaRef = Arc::new(Mutex::new(Arena::default()));
    let mut list = must("skiplist/create", || SkipList::create(Arc::new(order), arena.clone()))?;
    let mut model: Vec<Vec<u8>> = vec![];
    let mut inserted = 0;
    // an open iterator: None before the first entry, else the key it is at, or exhausted
    let mut open: Vec<(_, Pos)> = vec![];
    let mut usage = 0;
    walk(&list, &model)?;
    seeks(&list, &model)?;
    for op in &ops {
        match op {
            LOp::Insert(k) => {
                let u = UnsafeSlice::new_with_arena(k, arena.clone()).map_err(|e| Fail { sig: "unsafe_slice/new".into(), msg: e.to_string() })?;
                insert(&mut list, u, k, order, &mut model, cx)?;
                inserted += 1;
            }
            LOp::Again(i) => if !model.is_empty() {
                let k = model[i % model.len()].clone();
                let u = UnsafeSlice::new_with_arena(&k, arena.clone()).map_err(|e| Fail { sig: "unsafe_slice/new".into(), msg: e.to_string() })?;
                insert(&mut list, u, &k, order, &mut model, cx)?;
            },
            LOp::Contains(k) => {
                let want = model.iter().any(|m| order.cmp(m, k) == Ordering::Equal);
                let got = must("skiplist/contains", || list.contains(k))?;
                ensure!(got == want, "skiplist/contains", "contains({}) is {} in a list of {} keys", hex(k), got, model.len());
                cx.label(if want { "present" } else { "absent" });
            }
            LOp::Walk => walk(&list, &model)?,
            LOp::Seeks => seeks(&list, &model)?,
            LOp::Open => if open.len() < 4 { open.push((must("skiplist/iter", || list.iter())?, Pos::Before)); },
            LOp::Step(i, n) => if !open.is_empty() {
                let i = i % open.len();
                let (it, pos) = &mut open[i];
                for _ in 0..*n {
                    let want: Option<Vec<u8>> = match pos {
                        Pos::Before => model.first().cloned(),
                        Pos::At(k) => model.iter().find(|m| order.cmp(m, k) == Ordering::Greater).cloned(),
                        Pos::End => None,
                    };
                    let got = must("skiplist/iterate", || Iterator::next(it))?.map(|u| u.as_ref().to_vec());
                    ensure!(got == want, "skiplist/iterate", "an iterator kept across insertions returned {:?}, expected {:?}", got.as_deref().map(hex), want.as_deref().map(hex));
                    *pos = match want { Some(k) => Pos::At(k), None => Pos::End };
                    cx.label("step of a long-lived iterator");
                }
            },
        }
        ensure!(must("skiplist/len", || list.len())? == model.len(), "skiplist/len", "length {} after inserting {} distinct keys", list.len(), model.len());
        let u = must("skiplist/usage", || list.memory_usage())?;
        ensure!(u >= usage, "skiplist/usage-decreased", "memory usage went from {} to {}", usage, u);
        usage = u;
        let h = must("skiplist/height", || list.height())?;
        ensure!(h <= list.max_height(), "skiplist/height", "height {} above the maximum {}", h, list.max_height());
    }
    walk(&list, &model)?;
    seeks(&list, &model)?;
    for k in &model { ensure!(must("skiplist/contains", || list.contains(k))?, "skiplist/contains", "inserted key {} is not found", hex(k)); }
    for k in &pool {
        let want = model.iter().any(|m| order.cmp(m, k) == Ordering::Equal);
        ensure!(must("skiplist/contains", || list.contains(k))? == want, "skiplist/contains", "contains({}) should be {}", hex(k), want);
    }
    if text && model.iter().all(|k| std::str::from_utf8(k).is_ok()) {
        let t = must("skiplist/to_string", || list.to_string())?;
        let mut rest = &t[..];
        for k in &model {
            let k = format!(" -> {}(", std::str::from_utf8(k).unwrap());
            match rest.find(&k) { Some(i) => rest = &rest[i + k.len()..], None => return fail("skiplist/to_string", format!("{:?} is missing (or out of order) in {:?}", k, t)) }
        }
        ensure!(t.contains(&format!("num: {}", model.len())), "skiplist/to_string", "number of keys missing in {:?}", t);
        cx.label("printed");
    }
    cx.label_if(model.is_empty(), "empty list");
    cx.label_if(model.len() > 100, "more than 100 keys");
    cx.label_if(inserted > model.len(), "a key inserted twice");
    cx.nontrivial_if(model.len() >= 2);
    Ok(())
}

/// Thousands of keys, inserted in sorted, reversed, random or interleaved order.
fn long_list(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 12_000);
    let seed = s.u64();
    let (mode, st) = (s.below(5), s.u64());
    let order = Order(s.idx(4) as u8);
    let style = s.idx(4);
    let shape = s.idx(4);
    // towers of one height make the list a plain chain
    let n = if mode == 0 || mode == 3 { n } else { n / 12 + 1 };
    let mut x = seed;
    let mut keys: Vec<Vec<u8>> = (0..n).map(|i| {
        let r = splitmix(&mut x);
        match shape {
            0 => r.to_be_bytes().to_vec(),
            1 => format!("{:08}", i).into_bytes(),
            2 => { let mut k = vec![b'p'; (r % 400) as usize]; k.extend((i as u32).to_be_bytes()); k }
            _ => { let mut k = b"user".to_vec(); k.extend((r % (2 * n as u64)).to_string().into_bytes()); k } // many repeated
        }
    }).collect();
    match style {
        0 => keys.sort_by(|a, b| order.cmp(a, b)),
        1 => keys.sort_by(|a, b| order.cmp(b, a)),
        2 => { let mut i = 0; keys.sort_by(|a, b| order.cmp(a, b)); let k = keys.len(); let mut v = vec![]; while i < k { v.push(keys[i].clone()); i += 2; } i = 1; while i < k { v.push(keys[i].clone()); i += 2; } keys = v; }
        _ => for i in (1..keys.len()).rev() { let j = splitmix(&mut x) as usize % (i + 1); keys.swap(i, j); },
    }
    cx.start(s, || format!("{} keys like {}, {} order, order {} heights {}", n, hex(&keys[0]), ["sorted", "reversed", "interleaved", "random"][style], order.0, mode));
    let _reset = ResetRng;
    set_rng(Some(Box::new(Heights { mode, state: st })));
    let arena: ArenaRef = Arc::new(Mutex::new(Arena::default()));
    let mut list = must("skiplist/create", || SkipList::create(Arc::new(order), arena.clone()))?;
    let mut model: Vec<Vec<u8>> = vec![];
    for (i, k) in keys.iter().enumerate() {
        let u = UnsafeSlice::new_with_arena(k, arena.clone()).map_err(|e| Fail { sig: "unsafe_slice/new".into(), msg: e.to_string() })?;
        insert(&mut list, u, k, order, &mut model, cx)?;
        ensure!(list.len() == model.len(), "skiplist/len", "length {} after inserting {} distinct keys", list.len(), model.len());
        if i % 64 == 0 {
            let r = splitmix(&mut x);
            let q = if r & 1 == 0 { keys[(r >> 8) as usize % n].clone() } else { (r >> 3).to_be_bytes().to_vec() };
            let want = model.binary_search_by(|m| order.cmp(m, &q)).is_ok();
            ensure!(must("skiplist/contains", || list.contains(&q))? == want, "skiplist/contains", "contains({}) should be {} in a list of {} keys", hex(&q), want, model.len());
        }
    }
    walk(&list, &model)?;
    seeks(&list, &model)?;
    for k in &keys { ensure!(must("skiplist/contains", || list.contains(k))?, "skiplist/contains", "inserted key {} is not found among {}", hex(k), model.len()); }
    let u = must("skiplist/usage", || list.memory_usage())?;
    let least: usize = model.iter().map(|k| k.len()).sum();
    ensure!(u >= least, "skiplist/usage", "memory usage {} with {} bytes of keys", u, least);
    cx.label_if(model.len() > 1000, "over 1000 keys");
    cx.label_if(model.len() < keys.len(), "a key inserted twice");
    cx.nontrivial_if(model.len() >= 2);
    cx.evals(model.len() as u64);
    Ok(())
}

/// More keys than 16 bits count.
fn huge_list(s: &mut Src, cx: &mut Cx) -> Res {
    let n = 65536 + s.idx(9000);
    let seed = s.u64();
    let style = s.idx(3);
    cx.start(s, || format!("{} keys in {} order, seed {:#x}", n, ["ascending", "descending", "scattered"][style], seed));
    cx.nontrivial = true;
    cx.evals(n as u64 - 1);
    let _reset = ResetRng;
    set_rng(Some(Box::new(Heights { mode: 0, state: seed })));
    let arena: ArenaRef = Arc::new(Mutex::new(Arena::default()));
    let mut list = must("skiplist/create", || SkipList::create(Arc::new(Order(0)), arena.clone()))?;
    let mult = loop_mult(seed, n as u64);
    let nth = |i: usize| -> u64 { match style { 0 => i as u64, 1 => (n - 1 - i) as u64, _ => (i as u64).wrapping_mul(mult) % n as u64 } };
    let key = |v: u64| -> [u8; 4] { (v as u32).to_be_bytes() };
    for i in 0..n {
        let u = UnsafeSlice::new_with_arena(&key(nth(i)), arena.clone()).map_err(|e| Fail { sig: "unsafe_slice/new".into(), msg: e.to_string() })?;
        let r = must("skiplist/insert", || list.insert(u))?;
        ensure!(r.is_ok(), "skiplist/insert", "inserting key {} of {} failed", i, n);
        if i % 1000 == 0 || i + 40 > n || i > 65500 && i < 65600 {
            ensure!(list.len() == i + 1, "skiplist/len", "length {} after inserting {} distinct keys", list.len(), i + 1);
            let j = (seed as usize >> 8) % (i + 1);
            for v in [nth(j), nth(i)] { ensure!(must("skiplist/contains", || list.contains(&key(v)))?, "skiplist/contains", "inserted key {} is not found among {}", v, i + 1); }
        }
    }
    let mut count = 0u64;
    let order: Result<(), String> = must("skiplist/iterate", || {
        for u in list.iter().take(n + 3) { if u.as_ref() != key(count) { return Err(format!("position {} holds {}", count, hex(u.as_ref()))); } count += 1; }
        Ok(())
    })?;
    if let Err(e) = order { return fail("skiplist/iterate", e); }
    ensure!(count == n as u64, "skiplist/iterate", "iteration gives {} of {} keys", count, n);
    ensure!(!must("skiplist/contains", || list.contains(&key(n as u64)))?, "skiplist/contains", "a key that was not inserted is found");
    Ok(())
}
/// A multiplier coprime to n, so that i -> i * m mod n visits all of 0..n.
fn loop_mult(seed: u64, n: u64) -> u64 {
    let gcd = |mut a: u64, mut b: u64| { while b != 0 { (a, b) = (b, a % b); } a };
    let mut m = seed % n | 1;
    while gcd(m, n) != 1 { m += 1; }
    m
}

enum Pos { Before, At(Vec<u8>), End }

fn insert(list: &mut SkipList<Order>, u: UnsafeSlice, k: &[u8], order: Order, model: &mut Vec<Vec<u8>>, cx: &mut Cx) -> Res {
    let r = must("skiplist/insert", || list.insert(u))?;
    ensure!(r.is_ok(), "skiplist/insert", "inserting {} failed", hex(k));
    match model.binary_search_by(|m| order.cmp(m, k)) {
        Ok(i) => cx.label(if model[i] == k { "inserted again" } else { "equal under the comparator, different bytes" }),
        Err(i) => model.insert(i, k.to_vec()),
    }
    Ok(())
}

fn walk(list: &SkipList<Order>, model: &[Vec<u8>]) -> Res {
    let got: Vec<Vec<u8>> = must("skiplist/iterate", || list.iter().take(model.len() + 3).map(|u| u.as_ref().to_vec()).collect())?;
    ensure!(got == model, "skiplist/iterate", "iteration gives {} keys {:?}, expected {} keys {:?}", got.len(), got.iter().take(30).map(|k| hex(k)).collect::<Vec<_>>(), model.len(), model.iter().take(30).map(|k| hex(k)).collect::<Vec<_>>());
    let mut it = list.iter();
    for _ in 0..model.len() { Iterator::next(&mut it); }
    for _ in 0..2 { ensure!(must("skiplist/iterate", || Iterator::next(&mut it))?.is_none(), "skiplist/iterate", "the iterator returns something after its end"); }
    Ok(())
}

fn seeks(list: &SkipList<Order>, model: &[Vec<u8>]) -> Res {
    let mut it = list.iter();
    ensure!(!must("skiplist/valid", || it.valid())?, "skiplist/valid", "a new iterator claims to be at an entry");
    for turn in 0..2 {
        must("skiplist/seek_to_first", || it.seek_to_first())?;
        let mut i = 0;
        while must("skiplist/valid", || it.valid())? {
            let k = must("skiplist/key", || it.key())?;
            ensure!(i < model.len() && k.as_ref() == &model[i][..], "skiplist/scan", "scan {} gives {} at position {} of {}", turn, hex(k.as_ref()), i, model.len());
            must("skiplist/next", || DataIterator::next(&mut it))?;
            i += 1;
        }
        ensure!(i == model.len(), "skiplist/scan", "scan {} ended after {} of {} keys", turn, i, model.len());
        must("skiplist/next", || DataIterator::next(&mut it))?;
        ensure!(!must("skiplist/valid", || it.valid())?, "skiplist/valid", "the iterator became valid again after the end");
        must("skiplist/seek_to_last", || it.seek_to_last())?;
        let v = must("skiplist/valid", || it.valid())?;
        ensure!(v == !model.is_empty(), "skiplist/seek_to_last", "after seek_to_last on {} keys valid() is {}", model.len(), v);
        if v {
            let k = must("skiplist/key", || it.key())?;
            ensure!(k.as_ref() == &model[model.len() - 1][..], "skiplist/seek_to_last", "seek_to_last is at {}, expected {}", hex(k.as_ref()), hex(&model[model.len() - 1]));
            if turn == 0 {
                must("skiplist/next", || DataIterator::next(&mut it))?;
                ensure!(!must("skiplist/valid", || it.valid())?, "skiplist/seek_to_last", "there is an entry after the last one");
            }
        }
    }
    Ok(())
}

/// A comparator that declines to compare some pairs of keys, and orders the rest bytewise.
struct Partial { rule: u64 }
impl Partial {
    fn declines(&self, a: &[u8], b: &[u8]) -> bool {
        if a == b { return false; }
        let h = |k: &[u8]| k.iter().fold(k.len() as u64, |h, c| h.wrapping_mul(31).wrapping_add(*c as u64));
        match self.rule {
            0 => a.len().abs_diff(b.len()) > 4,
            1 => (h(a) ^ h(b)) % 5 == 0,
            2 => a.is_empty() || b.is_empty(),
            3 => a.first() == b.first() && a.len() == b.len(),
            _ => (h(a) ^ h(b)) % 37 == 0,
        }
    }
}
impl Comparator for Partial {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ordering> { if self.declines(a, b) { None } else { Some(a.cmp(b)) } }
    fn get_name(&self) -> String { "partial".into() }
    fn find_shortest_separator(&self, s: &String, _l: &Slice) -> String { s.clone() }
    fn find_short_successor(&self, k: &String) -> String { k.clone() }
}

/// Keys the comparator cannot place: they may be refused, but a refusal has to leave the list as it was.
fn incomparable(s: &mut Src, cx: &mut Cx) -> Res {
    let rule = s.below(5);
    let (mode, st) = (s.below(5), s.u64());
    let most = if s.chance(1, 20) { 300 } else { 40 };
    let n = s.len(most);
    let pool = related(s, 10);
    let keys: Vec<Vec<u8>> = (0..n).map(|_| if s.chance(1, 3) { s.pick(&pool).clone() } else { s.blob(10) }).collect();
    cx.start(s, || clip(format!("rule {} heights {} keys {:?}", rule, mode, keys.iter().map(|k| hex(k)).collect::<Vec<_>>()), 1200));
    let _reset = ResetRng;
    set_rng(Some(Box::new(Heights { mode, state: st })));
    let cmp = Partial { rule };
    let arena: ArenaRef = Arc::new(Mutex::new(Arena::default()));
    let mut list = must("skiplist/create", || SkipList::create(Arc::new(Partial { rule }), arena.clone()))?;
    let mut model: Vec<Vec<u8>> = vec![];
    let (mut refused, mut after) = (0, 0);
    for k in &keys {
        let u = UnsafeSlice::new_with_arena(k, arena.clone()).map_err(|e| Fail { sig: "unsafe_slice/new".into(), msg: e.to_string() })?;
        let clear = !model.iter().any(|m| cmp.declines(m, k));
        let r = must("skiplist/insert", || list.insert(u))?;
        match r {
            Ok(()) => if let Err(i) = model.binary_search(k) { model.insert(i, k.clone()); if refused > 0 { after += 1; } },
            Err(_) => {
                ensure!(!clear, "skiplist/insert", "inserting {} failed although it compares with every key", hex(k));
                refused += 1;
                cx.label("a key refused");
            }
        }
        ensure!(must("skiplist/len", || list.len())? == model.len(), "skiplist/refused", "length {} with {} keys accepted and {} refused", list.len(), model.len(), refused);
        for q in model.iter().chain(pool.iter()).chain(keys.iter().take(8)) {
            let got = must("skiplist/refused", || list.contains(q))?;
            let has = model.binary_search(q).is_ok();
            ensure!(!got || has, "skiplist/refused", "contains({}) is true, but it was never accepted ({} keys refused)", hex(q), refused);
            if has && !model.iter().any(|m| cmp.declines(m, q)) { ensure!(got, "skiplist/refused", "the accepted key {} is not found after {} keys were refused", hex(q), refused); }
        }
        let got: Vec<Vec<u8>> = must("skiplist/refused", || list.iter().take(model.len() + 3).map(|u| u.as_ref().to_vec()).collect())?;
        ensure!(got == model, "skiplist/refused", "iteration gives {} keys, expected {} (after {} refused)", got.len(), model.len(), refused);
    }
    let mut it = list.iter();
    must("skiplist/seek_to_last", || it.seek_to_last())?;
    let v = must("skiplist/valid", || it.valid())?;
    ensure!(v == !model.is_empty(), "skiplist/refused", "after seek_to_last on {} keys valid() is {}", model.len(), v);
    if v {
        let k = must("skiplist/key", || it.key())?;
        ensure!(k.as_ref() == &model[model.len() - 1][..], "skiplist/refused", "seek_to_last is at {}, expected {} ({} keys refused)", hex(k.as_ref()), hex(&model[model.len() - 1]), refused);
    }
    cx.label_if(after > 0, "keys accepted after one was refused");
    cx.nontrivial_if(refused > 0 && model.len() >= 2);
    Ok(())
}

// ---------------------------------------------------------------- C19

fn sized(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[6, 3, 2, 1]) {
        0 => s.blob(30),
        1 => { let n = 112 + s.idx(24); s.bytes(n) }
        2 => { let n = *s.pick(&[1000usize, 1020, 1024, 4080, 4096]) + s.idx(10); s.bytes(n) }
        _ => { let n = 16368 + s.idx(24); s.bytes(n) }
    }
}
pub fn vtype(del: bool) -> ValueType { if del { ValueType::KTypeDeletion } else { ValueType::KTypeValue } }
fn seq56(s: &mut Src) -> u64 { match s.below(3) { 0 => s.below(300), 1 => (1u64 << 56) - 1 - s.below(3), _ => s.edge64() & ((1 << 56) - 1) } }

pub fn entry(seq: u64, del: bool, k: &[u8], v: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    put_varint(&mut o, k.len() as u64 + 8);
    o.extend_from_slice(k);
    o.extend_from_slice(&(seq << 8 | !del as u64).to_le_bytes());
    put_varint(&mut o, v.len() as u64);
    o.extend_from_slice(v);
    o
}

fn memtable(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 25);
    let order = Order(*s.pick(&[0u8, 0, 1, 3]));
    let (mode, st) = (s.below(5), s.u64());
    let monotone = s.bool();
    let mut seq = seq56(s) >> 8;
    let mut keys: Vec<Vec<u8>> = vec![];
    let ops: Vec<(u64, bool, Vec<u8>, Vec<u8>, u8)> = (0..n).map(|_| {
        let k = if !keys.is_empty() && s.bool() { s.pick(&keys).clone() } else { sized(s) };
        keys.push(k.clone());
        seq = if monotone { seq + 1 } else { seq56(s) };
        let del = s.chance(1, 3);
        let v = if del && s.bool() { vec![] } else { sized(s) };
        (seq, del, k, v, s.idx(3) as u8)
    }).collect();
    cx.start(s, || clip(ops.iter().map(|o| format!("{} {} key {} value {}", o.0, if o.1 { "delete" } else { "put" }, hex(&o.2), hex(&o.3))).collect::<Vec<_>>().join("; "), 1200));
    cx.nontrivial_if(n >= 2);
    let _reset = ResetRng;
    set_rng(Some(Box::new(Heights { mode, state: st })));
    let mut t = must("memtable/create", || MemTable::create(Arc::new(order)))?;
    let mut model: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut usage = must("memtable/usage", || t.approximate_memory_usage())?;
    let mut bytes = 0;
    for (i, (seq, del, k, v, how)) in ops.iter().enumerate() {
        let r = must("memtable/add", || match how {
            0 => t.add(*seq as usize, vtype(*del), k, v),
            1 => t.add(*seq as usize, vtype(*del), &Slice::from_buf(k), &Slice::from_buf(v)),
            _ => t.add(*seq as usize, vtype(*del), &k.as_slice(), &v.as_slice()),
        })?;
        if let Err(e) = r { return fail("memtable/add", format!("write {} was refused: {}", i, e.to_string())); }
        let e = entry(*seq, *del, k, v);
        if model.insert(e.clone()) { bytes += e.len(); } else { cx.label("identical write"); }
        cx.label_if(k.len() + 8 >= 120 && k.len() + 8 <= 136, "key length around the varint boundary");
        cx.label_if(k.is_empty(), "empty key");
        cx.label_if(v.is_empty(), "empty value");
        let u = must("memtable/usage", || t.approximate_memory_usage())?;
        ensure!(u >= usage, "memtable/usage-decreased", "memory usage went from {} to {}", usage, u);
        ensure!(u >= bytes, "memtable/usage-too-small", "memory usage {} with {} bytes stored", u, bytes);
        usage = u;
        let got: Vec<Vec<u8>> = must("memtable/entries", || t.verif_list().iter().take(model.len() + 3).map(|u| u.as_ref().to_vec()).collect())?;
        let set: BTreeSet<Vec<u8>> = got.iter().cloned().collect();
        if let Some(m) = model.iter().find(|m| !set.contains(*m)) { return fail("memtable/entry-missing", format!("after write {} the entry {} is not stored ({} of {} entries)", i, hex(m), got.len(), model.len())); }
        ensure!(got.len() == model.len(), "memtable/entry-extra", "{} entries stored after {} different writes", got.len(), model.len());
    }
    cx.label_if(usage > 4096, "several arena blocks");
    Ok(())
}

/// Hundreds of writes, or values and keys up to several MiB: everything is stored, checked at the end.
fn long_memtable(s: &mut Src, cx: &mut Cx) -> Res {
    let style = s.weighted(&[20, 20, 20, 1]);
    let n = match style { 0 => s.urange(1, 800), 1 => s.urange(1, 6), 2 => s.urange(1, 60), _ => 65536 + s.idx(3000) };
    let seed = s.u64();
    let order = Order(if style == 3 { 0 } else { *s.pick(&[0u8, 0, 1, 3]) });
    let (mode, st) = (*s.pick(&[0u64, 3]), s.u64());
    let big = s.urange(60_000, 2_200_000);
    let mut x = seed;
    let fill = |n: usize, mut y: u64| -> Vec<u8> { (0..n).map(|_| splitmix(&mut y) as u8).collect() };
    let ops: Vec<(u64, bool, Vec<u8>, Vec<u8>)> = (0..n).map(|i| {
        let r = splitmix(&mut x);
        let q = (r >> 20) as usize;
        let klen = match style { 3 => 0, 0 => q % 60, 1 if r & 1 == 0 => big / 2 + q % 9, _ => [q % 30, 16384 - 8 + q % 5 - 2, 65536 - 10 + q % 12, 2000][(r >> 4) as usize % 4] };
        let vlen = match style { 3 => q % 9, 0 => q % 200, 1 => big + q % 9, _ => [q % 40, 16384 + q % 5 - 2, 65536 + q % 5 - 2, 128][(r >> 6) as usize % 4] };
        (((i as u64 + 1) * 7 + (seed & 0xffff_ffff)), r & 0x700 == 0, if style == 3 { (r as u32).to_be_bytes().to_vec() } else { fill(klen, r % 512) }, fill(vlen, r ^ 7))
    }).collect();
    cx.start(s, || clip(format!("{} writes: {}", n, ops.iter().take(40).map(|o| format!("{} {} key of {} value of {}", o.0, if o.1 { "delete" } else { "put" }, o.2.len(), o.3.len())).collect::<Vec<_>>().join("; ")), 1200));
    cx.nontrivial_if(n >= 2);
    cx.label(["hundreds of writes", "keys and values of MiB", "lengths around the varint boundaries", "over 65536 writes"][style]);
    let _reset = ResetRng;
    set_rng(Some(Box::new(Heights { mode: if style == 3 { 0 } else { mode }, state: st })));
    let mut t = must("memtable/create", || MemTable::create(Arc::new(order)))?;
    let mut model: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut usage = must("memtable/usage", || t.approximate_memory_usage())?;
    for (i, (seq, del, k, v)) in ops.iter().enumerate() {
        if let Err(e) = must("memtable/add", || t.add(*seq as usize, vtype(*del), k, v))? { return fail("memtable/add", format!("write {} was refused: {}", i, e.to_string())); }
        model.insert(entry(*seq, *del, k, v));
        let u = must("memtable/usage", || t.approximate_memory_usage())?;
        ensure!(u >= usage, "memtable/usage-decreased", "memory usage went from {} to {}", usage, u);
        usage = u;
    }
    let bytes: usize = model.iter().map(|e| e.len()).sum();
    ensure!(usage >= bytes, "memtable/usage-too-small", "memory usage {} with {} bytes stored", usage, bytes);
    let got: Vec<Vec<u8>> = must("memtable/entries", || t.verif_list().iter().take(model.len() + 3).map(|u| u.as_ref().to_vec()).collect())?;
    let set: BTreeSet<Vec<u8>> = got.iter().cloned().collect();
    if let Some(m) = model.iter().find(|m| !set.contains(*m)) { return fail("memtable/entry-missing", format!("the entry {} is not stored ({} of {} entries)", hex(m), got.len(), model.len())); }
    ensure!(got.len() == model.len(), "memtable/entry-extra", "{} entries stored after {} different writes", got.len(), model.len());
    Ok(())
}

// ---------------------------------------------------------------- C20

fn long_lookup(s: &mut Src, cx: &mut Cx) -> Res {
    let n = (*s.pick(&[1usize << 14, 1 << 16, 1 << 21, 1 << 20]) + s.idx(24)).saturating_sub(16);
    let seed = s.u64();
    let k: Vec<u8> = { let mut x = seed; let unit: Vec<u8> = (0..4099).map(|_| splitmix(&mut x) as u8).collect(); unit.iter().cycle().take(n).cloned().collect() };
    lookup(s, cx, k)
}
fn lookup_key(s: &mut Src, cx: &mut Cx) -> Res { let k = sized(s); lookup(s, cx, k) }
fn lookup(s: &mut Src, cx: &mut Cx, k: Vec<u8>) -> Res {
    let seq = seq56(s);
    cx.start(s, || format!("user key {} sequence {}", hex(&k), seq));
    cx.nontrivial_if(!k.is_empty());
    cx.label_if(k.len() >= 112 && k.len() <= 136, "key length around the varint boundary");
    cx.label_if(k.is_empty(), "empty key");
    cx.label_if(k.len() > 1 << 20, "key over 1 MiB");
    leak_free("lookup key", || {
        let l = must("lookup/new", || LookupKey::new(Slice::from_buf(&k), seq as usize))?;
        let mut want = vec![];
        put_varint(&mut want, k.len() as u64 + 8);
        let skip = want.len();
        want.extend_from_slice(&k);
        want.extend_from_slice(&(seq << 8 | 1).to_le_bytes());
        for _ in 0..2 {
            let m = must("lookup/mem_table_key", || l.mem_table_key())?;
            ensure!(&*m == &want[..], "lookup/mem_table_key", "memtable key {}, expected {}", hex(&m), hex(&want));
            let m = must("lookup/internal_key", || l.internal_key())?;
            ensure!(&*m == &want[skip..], "lookup/internal_key", "internal key {}, expected {}", hex(&m), hex(&want[skip..]));
        }
        let p = must("lookup/encoding_length", || ParsedInternalKey::new(Slice::default(), 0, ValueType::KTypeValue).internal_key_encoding_length(ParsedInternalKey::new(Slice::from_buf(&k), seq, ValueType::KTypeValue)))?;
        ensure!(p == k.len() + 8, "lookup/encoding_length", "encoding length {} for a key of {} bytes", p, k.len());
        Ok(())
    })
}

fn packing(s: &mut Src, cx: &mut Cx) -> Res {
    let pairs: Vec<(u64, bool)> = (0..8).map(|_| (seq56(s), s.bool())).collect();
    let code = match s.below(3) { 0 => s.range(0, 20) as i32 - 10, 1 => s.edge32() as i32, _ => s.u32() as i32 };
    cx.start(s, || format!("{:?} code {}", pairs, code));
    cx.nontrivial = true;
    let mut seen: BTreeMap<u64, (u64, bool)> = BTreeMap::new();
    for (q, d) in &pairs {
        let p = must("pack", || pack_sequence_and_type(*q as usize, vtype(*d)))?;
        ensure!(p == q << 8 | !*d as u64, "pack/value", "packing sequence {} ({}) gives {:#x}", q, if *d { "deletion" } else { "value" }, p);
        if let Some(o) = seen.insert(p, (*q, *d)) { ensure!(o == (*q, *d), "pack/injective", "{:?} and {:?} pack to the same word", o, (q, d)); }
    }
    cx.evals(7);
    let r = must("value_type", || ValueType::try_from(code))?;
    match (&r, code) {
        (Ok(v), 0 | 1) => ensure!(v.get_value() == code as usize && matches!((v, code), (ValueType::KTypeDeletion, 0) | (ValueType::KTypeValue, 1)), "value_type/kind", "code {} gives kind {}", code, v.get_value()),
        (Err(_), 0 | 1) => return fail("value_type/kind", format!("code {} is refused", code)),
        (Ok(_), _) => return fail("value_type/unknown", format!("unknown code {} is accepted", code)),
        _ => {}
    }
    Ok(())
}

// ---------------------------------------------------------------- C29

#[derive(Debug, Clone)]
enum EOp { Comparator(Vec<u8>), Log(u64), Prev(u64), Next(u64), Last(u64), Pointer(u32, Vec<u8>), Delete(u32, u64), Add(u32, u64, u64, Vec<u8>, Vec<u8>), Clear, Encode }

#[derive(Default, Debug, Clone, PartialEq)]
struct Edit { comparator: Option<Vec<u8>>, log: Option<u64>, prev: Option<u64>, next: Option<u64>, last: Option<u64>, pointers: Vec<(u32, Vec<u8>)>, deleted: Vec<(u32, u64)>, added: Vec<(u32, u64, u64, Vec<u8>, Vec<u8>)> }

/// Independent manifest record decoder; a field that may appear once appearing twice is an error.
fn parse_edit(mut b: &[u8]) -> Result<Edit, String> {
    fn v(b: &mut &[u8], max: usize) -> Result<u64, String> {
        let (x, n) = get_varint(b, max).ok_or("bad varint")?;
        if n != crate::refs::varint(x).len() { return Err("varint longer than necessary".into()); }
        if max == 5 && x > u32::MAX as u64 { return Err("varint32 out of range".into()); }
        *b = &b[n..];
        Ok(x)
    }
    fn bytes(b: &mut &[u8]) -> Result<Vec<u8>, String> {
        let n = v(b, 5)? as usize;
        if n > b.len() { return Err(format!("length {} with {} bytes left", n, b.len())); }
        let r = b[..n].to_vec();
        *b = &b[n..];
        Ok(r)
    }
    fn once<T>(o: &mut Option<T>, x: T, what: &str) -> Result<(), String> {
        if o.is_some() { return Err(format!("{} appears twice", what)); }
        *o = Some(x);
        Ok(())
    }
    let mut e = Edit::default();
    while !b.is_empty() {
        match v(&mut b, 5)? {
            1 => { let x = bytes(&mut b)?; once(&mut e.comparator, x, "comparator")? }
            2 => { let x = v(&mut b, 10)?; once(&mut e.log, x, "log number")? }
            3 => { let x = v(&mut b, 10)?; once(&mut e.next, x, "next file number")? }
            4 => { let x = v(&mut b, 10)?; once(&mut e.last, x, "last sequence")? }
            5 => { let l = v(&mut b, 5)? as u32; e.pointers.push((l, bytes(&mut b)?)) }
            6 => { let l = v(&mut b, 5)? as u32; e.deleted.push((l, v(&mut b, 10)?)) }
            7 => { let l = v(&mut b, 5)? as u32; let n = v(&mut b, 10)?; let z = v(&mut b, 10)?; let s = bytes(&mut b)?; e.added.push((l, n, z, s, bytes(&mut b)?)) }
            9 => { let x = v(&mut b, 10)?; once(&mut e.prev, x, "previous log number")? }
            t => return Err(format!("unknown tag {}", t)),
        }
    }
    Ok(e)
}

fn ikey(b: &[u8]) -> InternalKey { InternalKey::verif_from(Slice::from_buf(b)) }

fn version_edit(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(0, 25);
    let level = |s: &mut Src| if s.chance(1, 8) { s.edge32() } else { s.idx(7) as u32 };
    let key = |s: &mut Src| { let most = if s.chance(1, 12) { 300 } else { 30 }; let mut k = s.blob(most); k.extend_from_slice(&s.edge64().to_le_bytes()); k };
    let start = s.idx(3);
    let first = s.edge64();
    let ops: Vec<EOp> = (0..n).map(|_| match s.weighted(&[2, 2, 2, 2, 2, 3, 4, 4, 1, 2]) {
        0 => { let t = if s.chance(1, 4) { s.text(150) } else { "leveldb.BytewiseComparator".to_string() }; EOp::Comparator(t.into_bytes()) }
        1 => EOp::Log(s.edge64()),
        2 => EOp::Prev(s.edge64()),
        3 => EOp::Next(s.edge64()),
        4 => EOp::Last(s.edge64()),
        5 => EOp::Pointer(level(s), key(s)),
        6 => EOp::Delete(level(s), if s.bool() { s.below(5) } else { s.edge64() }),
        7 => EOp::Add(level(s), s.edge64(), s.edge64(), key(s), key(s)),
        8 => EOp::Clear,
        _ => EOp::Encode,
    }).chain(std::iter::once(EOp::Encode)).collect();
    cx.start(s, || clip(format!("created as {} ({}): {:?}", start, first, ops), 1200));
    edit_run(start, first, ops, cx)
}

/// Hundreds of files and pointers, long keys and names.
fn long_edit(s: &mut Src, cx: &mut Cx) -> Res {
    let many = s.chance(1, 40);
    let n = if many { s.urange(100_000, 160_000) } else { s.urange(1, 1500) };
    let seed = s.u64();
    // the kind most of the operations are: a pointer, a deletion, an addition
    let mostly = if many { *s.pick(&[4u64, 7, 11]) } else { 0 };
    let cap = if many { 3 } else { *s.pick(&[20usize, 300, 20_000, 20_000, 400_000]) };
    let n = if cap > 20_000 { n.min(40) } else { n };
    let start = s.idx(3);
    let first = s.edge64();
    let mut x = seed;
    let mut total = 0;
    let mut ops: Vec<EOp> = (0..n).map(|i| {
        let r = splitmix(&mut x);
        let q = (r >> 24) as usize;
        let mut key = || { let y = splitmix(&mut x); let len = if total > 3_000_000 { 9 } else { (y >> 8) as usize % (cap + 1) }; total += len; let mut k = vec![y as u8; len]; k.extend_from_slice(&splitmix(&mut x).to_le_bytes()); k };
        match if mostly != 0 && r >> 60 < 12 { mostly } else { r % 16 } {
            0 => EOp::Comparator(vec![b'c'; q % (cap + 1)]),
            1 => EOp::Log(q as u64),
            2 => EOp::Next(q as u64),
            3 => EOp::Last(q as u64),
            4..=6 => EOp::Pointer(q as u32 % 9, key()),
            7..=10 => EOp::Delete(q as u32 % 7, if q & 64 == 0 { i as u64 } else { q as u64 % 50 }),
            11..=14 => EOp::Add(q as u32 % 7, i as u64 + 1000 * (q as u64 & 7), q as u64, key(), key()),
            _ => if q % if many { 1_000_000 } else { 300 } == 0 { EOp::Clear } else { EOp::Prev(q as u64) },
        }
    }).collect();
    ops.push(EOp::Encode);
    cx.start(s, || clip(format!("created as {} ({}): {} operations from seed {:#x}, keys up to {} bytes", start, first, n, seed, cap), 1200));
    cx.label_if(n > 500, "over 500 operations");
    cx.label_if(many, "over 100000 operations");
    cx.label_if(cap > 16384, "keys over 16 KiB");
    cx.label_if(cap > 65536, "keys over 64 KiB");
    edit_run(start, first, ops, cx)
}

fn edit_run(start: usize, first: u64, ops: Vec<EOp>, cx: &mut Cx) -> Res {
    let n = ops.len() - 1;
    let mut model = Edit::default();
    let mut ve = must("edit/new", || match start { 0 => VersionEdit::new(), 1 => VersionEdit::new_with_log_number(first), _ => VersionEdit::new_with_prev_log_number(first) })?;
    match start { 1 => model.log = Some(first), 2 => model.prev = Some(first), _ => {} }
    let mut set = 0;
    for (i, op) in ops.iter().enumerate() {
        match op.clone() {
            EOp::Comparator(b) => { must("edit/set", || ve.set_comparator_name(Slice::from_buf(&b)))?; model.comparator = Some(b); }
            EOp::Log(x) => { must("edit/set", || ve.set_log_number(x))?; model.log = Some(x); }
            EOp::Prev(x) => { must("edit/set", || ve.set_prev_log_number(x))?; model.prev = Some(x); }
            EOp::Next(x) => { must("edit/set", || ve.set_next_file(x))?; model.next = Some(x); }
            EOp::Last(x) => { must("edit/set", || ve.set_last_sequence(x))?; model.last = Some(x); }
            EOp::Pointer(l, k) => { must("edit/set", || ve.set_compact_pointer(l, ikey(&k)))?; model.pointers.push((l, k)); }
            EOp::Delete(l, f) => { must("edit/set", || ve.delete_file(l, f))?; model.deleted.push((l, f)); }
            EOp::Add(l, f, z, a, b) => { must("edit/set", || ve.add_file(l, f, z, ikey(&a), ikey(&b)))?; model.added.push((l, f, z, a, b)); }
            EOp::Clear => {
                must("edit/clear", || ve.clear())?;
                // documented: compaction pointers are kept
                model = Edit { pointers: std::mem::take(&mut model.pointers), ..Edit::default() };
                cx.label("cleared");
            }
            EOp::Encode => {
                let mut out: Vec<u8> = vec![];
                let r = must("edit/encode", || ve.encode_to(&mut out))?;
                if let Err(e) = r { return fail("edit/encode", format!("encoding failed at step {}: {}", i, e.to_string())); }
                let mut got = match parse_edit(&out) { Ok(e) => e, Err(e) => return fail("edit/malformed", format!("the encoding at step {} is malformed ({}): {}", i, e, hex(&out))) };
                let want = model.clone();
                // deleted files are a set: one mention is enough, more are harmless
                let ds: BTreeSet<_> = got.deleted.iter().cloned().collect();
                let ws: BTreeSet<_> = want.deleted.iter().cloned().collect();
                ensure!(ds == ws, "edit/deleted", "deleted files {:?}, expected {:?}", ds, ws);
                let mut times: BTreeMap<(u32, u64), (usize, usize)> = BTreeMap::new();
                for d in &got.deleted { times.entry(*d).or_default().0 += 1; }
                for d in &want.deleted { times.entry(*d).or_default().1 += 1; }
                for (d, (g, w)) in times {
                    ensure!(g <= w, "edit/deleted", "file {:?} deleted {} times, encoded {} times", d, w, g);
                }
                got.deleted = want.deleted.clone();
                ensure!(got == want, "edit/fields", "step {}: the encoding holds {}, expected {}", i, clip(format!("{:?}", got), 700), clip(format!("{:?}", want), 700));
                let mut again: Vec<u8> = vec![];
                let r = must("edit/encode", || ve.encode_to(&mut again))?;
                ensure!(r.is_ok() && again == out, "edit/encode-twice", "encoding twice gives different bytes");
                cx.label_if(!want.added.is_empty(), "new files");
                cx.label_if(!want.pointers.is_empty(), "compaction pointers");
                cx.label_if(want == Edit::default(), "nothing set");
                cx.label_if(want.comparator.is_some(), "comparator");
                if want != Edit::default() { set += 1; }
            }
        }
    }
    cx.nontrivial_if(set > 0 && n >= 2);
    Ok(())
}

// ---------------------------------------------------------------- C33

/// The bytewise order, counting its comparisons.
struct Counting(Arc<AtomicU64>);
impl Comparator for Counting {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ordering> { self.0.fetch_add(1, Relaxed); Some(a.cmp(b)) }
    fn get_name(&self) -> String { "counting".into() }
    fn find_shortest_separator(&self, s: &String, _l: &Slice) -> String { s.clone() }
    fn find_short_successor(&self, k: &String) -> String { k.clone() }
}

/// Comparisons made by lookups and insertions, with tower heights drawn as the list itself wants them.
fn search_work(s: &mut Src, cx: &mut Cx) -> Res {
    let n = if s.chance(1, 8) { s.urange(8_000, 20_000) } else { s.urange(64, 6_000) };
    let (seed, st) = (s.u64(), s.u64());
    let style = s.idx(4);
    cx.start(s, || format!("{} keys from seed {:#x}, {} order, heights from seed {:#x}", n, seed, ["sorted", "reversed", "interleaved", "random"][style], st));
    cx.nontrivial_if(n >= 500);
    cx.label(["sorted", "reversed", "interleaved", "random"][style]);
    cx.label_if(n >= 8000, "at least 8000 keys");
    let _reset = ResetRng;
    set_rng(Some(Box::new(Heights { mode: 0, state: st })));
    let count = Arc::new(AtomicU64::new(0));
    let arena: ArenaRef = Arc::new(Mutex::new(Arena::default()));
    let mut list = must("skiplist/create", || SkipList::create(Arc::new(Counting(count.clone())), arena.clone()))?;
    // distinct even numbers; the odd ones are absent
    let key = |i: usize| (2 * i as u64 + 2).to_be_bytes();
    let mut x = seed;
    let order: Vec<usize> = match style {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
        _ => { let mut v: Vec<usize> = (0..n).collect(); for i in (1..n).rev() { let j = splitmix(&mut x) as usize % (i + 1); v.swap(i, j); } v }
    };
    // logarithmic, plus walking the top level of a list of limited height: 3 to 7 times what a sound list needs
    let limit = |n: usize| 4.0 * (n as f64 + 2.0).log2() + n as f64 / 128.0 + 16.0;
    let mut late = 0u64;
    for (i, k) in order.iter().enumerate() {
        let u = UnsafeSlice::new_with_arena(&key(*k), arena.clone()).map_err(|e| Fail { sig: "unsafe_slice/new".into(), msg: e.to_string() })?;
        let before = count.load(Relaxed);
        let r = must("skiplist/insert", || list.insert(u))?;
        ensure!(r.is_ok(), "skiplist/insert", "inserting {} failed", hex(&key(*k)));
        if i >= n / 2 { late += count.load(Relaxed) - before; }
    }
    let per = late as f64 / (n - n / 2) as f64;
    // an insertion may look for the key first
    ensure!(per <= 2.0 * limit(n), "work/insert", "inserting into a list of {} to {} keys takes {:.1} comparisons on average, logarithmic work allows {:.1}", n / 2, n, per, 2.0 * limit(n));
    for (what, odd) in [("present", 0u64), ("absent", 1)] {
        count.store(0, Relaxed);
        for i in 0..n {
            let k = (2 * i as u64 + 2 + odd).to_be_bytes();
            ensure!(must("skiplist/contains", || list.contains(&k))? == (odd == 0), "skiplist/contains", "contains({}) is wrong in a list of {} keys", hex(&k), n);
        }
        let per = count.load(Relaxed) as f64 / n as f64;
        ensure!(per <= limit(n), "work/contains", "looking up {} keys in a list of {} takes {:.1} comparisons on average, logarithmic work allows {:.1}", what, n, per, limit(n));
    }
    cx.evals(3 * n as u64 - 1);
    Ok(())
}

/// Memory taken from the system against memory handed out.
fn arena_overhead(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 4000);
    let seed = s.u64();
    let style = s.idx(5);
    let aligned = s.chance(1, 3);
    let cap = *s.pick(&[8usize, 64, 200, 1024, 1025, 4096]);
    let mut x = seed;
    let ops: Vec<(usize, usize)> = (0..n).map(|_| {
        let r = splitmix(&mut x);
        let q = (r >> 16) as usize;
        let size = match style { 0 => q % (cap + 1), 1 => cap, 2 => if r % 9 == 0 { q % 9000 } else { q % 100 }, 3 => [0, 1, 1023, 1024, 1025, 3072, 4095, 4096, 4097][q % 9], _ => if r % 2 == 0 { 1024 } else { 1 + q % 8 } };
        (size, if aligned && r >> 60 < 5 { 1usize << ((r >> 12) % 4) } else { 1 })
    }).collect();
    cx.start(s, || format!("{} allocations (size, alignment) {:?} and so on", n, ops.iter().take(40).collect::<Vec<_>>()));
    cx.label(["sizes up to a limit", "one size", "a few large", "around the limits", "quarter blocks and crumbs"][style]);
    let mut arena = must("arena/new", Arena::default)?;
    let (mut total, mut pad) = (0usize, 0usize);
    for (i, (size, align)) in ops.iter().enumerate() {
        must("arena/allocate", || { if *align > 1 { arena.allocate_align(*size, *align).len() } else { arena.allocate(*size).len() } })?;
        total += size;
        if *align > 1 { pad += align; }
        let u = must("arena/usage", || arena.memory_usage())?;
        let most = total + pad + (total + pad) / 3 + 2 * 4096;
        ensure!(u <= most, "work/arena-overhead", "after {} requests for {} bytes in total the arena has taken {} bytes, at most {} were expected", i + 1, total, u, most);
    }
    cx.nontrivial_if(total > 3 * 4096);
    Ok(())
}

/// Memory a memtable reports against what was written to it.
fn memtable_overhead(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 1500);
    let seed = s.u64();
    let (klen, vlen) = (s.len(60), s.len(1500));
    let st = s.u64();
    cx.start(s, || format!("{} writes with keys up to {} and values up to {} bytes from seed {:#x}", n, klen, vlen, seed));
    let _reset = ResetRng;
    set_rng(Some(Box::new(Heights { mode: 0, state: st })));
    let mut t = must("memtable/create", || MemTable::create(Arc::new(Order(0))))?;
    let mut x = seed;
    let mut total = 0;
    for i in 0..n {
        let r = splitmix(&mut x);
        let (k, v) = (vec![r as u8; (r >> 8) as usize % (klen + 1)], vec![(r >> 3) as u8; (r >> 32) as usize % (vlen + 1)]);
        if let Err(e) = must("memtable/add", || t.add(i + 1, vtype(r & 8 == 0), &k, &v))? { return fail("memtable/add", format!("write {} was refused: {}", i, e.to_string())); }
        total += entry(i as u64 + 1, r & 8 == 0, &k, &v).len();
        let u = must("memtable/usage", || t.approximate_memory_usage())?;
        // a list node, its links and the arena's block remainders
        let most = (total + 256 * (i + 2)) / 3 * 4 + 4 * 4096;
        ensure!(u <= most, "work/memtable-overhead", "memory usage {} after {} writes of {} bytes in total, at most {} was expected", u, i + 1, total, most);
    }
    cx.label_if(n > 500, "over 500 writes");
    cx.nontrivial_if(total > 3 * 4096);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C33", rule: "search_work: at least 500 keys; arena_overhead, memtable_overhead: more than three blocks' worth of bytes", assumptions: &["tower heights come from a sound source of random bits", "work is counted in key comparisons, averaged over all keys of a list"],
            subs: vec![Sub { name: "search_work", quick: 160, thorough: 8000, run: search_work }, Sub { name: "arena_overhead", quick: 4000, thorough: 200000, run: arena_overhead }, Sub { name: "memtable_overhead", quick: 400, thorough: 20000, run: memtable_overhead }] },
        Prop { id: "C17", rule: "arena, long_arena: at least two non-empty allocations; huge_arena: over 1 GiB in all; slices, long_slices: at least two operations", assumptions: &["allocations that the system allocator refuses are not generated"],
            subs: vec![Sub { name: "arena", quick: 60000, thorough: 3000000, run: arena_ops }, Sub { name: "long_arena", quick: 300, thorough: 15000, run: long_arena }, Sub { name: "huge_arena", quick: 60, thorough: 3000, run: huge_arena }, Sub { name: "slices", quick: 60000, thorough: 3000000, run: unsafe_slices }, Sub { name: "long_slices", quick: 300, thorough: 15000, run: long_slices }] },
        Prop { id: "C18", rule: "skiplist, long_list: at least two distinct keys inserted; huge_list: every case; incomparable: two keys accepted and one refused", assumptions: &["comparators are total orders (possibly with equal keys of different bytes), or decline to compare some pairs and order the rest consistently"],
            subs: vec![Sub { name: "skiplist", quick: 40000, thorough: 500000, run: skip_list }, Sub { name: "long_list", quick: 120, thorough: 5000, run: long_list }, Sub { name: "huge_list", quick: 3, thorough: 60, run: huge_list }, Sub { name: "incomparable", quick: 20000, thorough: 1000000, run: incomparable }] },
        Prop { id: "C19", rule: "at least two writes", assumptions: &["sequence numbers fit in 56 bits"],
            subs: vec![Sub { name: "memtable", quick: 15000, thorough: 400000, run: memtable }, Sub { name: "long_memtable", quick: 200, thorough: 10000, run: long_memtable }] },
        Prop { id: "C20", rule: "lookup, long_lookup: a non-empty key; packing: always", assumptions: &["sequence numbers fit in 56 bits"],
            subs: vec![Sub { name: "lookup", quick: 150000, thorough: 6000000, run: lookup_key }, Sub { name: "long_lookup", quick: 200, thorough: 10000, run: long_lookup }, Sub { name: "packing", quick: 100000, thorough: 10000000, run: packing }] },
        Prop { id: "C29", rule: "at least two operations and an encoding with at least one field", assumptions: &["the target buffer is empty", "internal keys get their contents through the hook, as building one from its parts is not implemented"],
            subs: vec![Sub { name: "edit", quick: 80000, thorough: 4000000, run: version_edit }, Sub { name: "long_edit", quick: 300, thorough: 15000, run: long_edit }] },
    ]
}
