//! C09, C10: checksum and hash.
use crate::engine::*;
use crate::ensure;
use crate::refs::*;
use level_db_rust::util::crc::{AsCrc, ToMask, CRC};
use level_db_rust::util::hash::{Hash, ToHash};
use level_db_rust::util::r#const::HASH_DEFAULT_SEED;
use level_db_rust::util::slice::Slice;

fn data(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[6, 4, 1]) {
        0 => { let n = s.urange(0, 80); s.bytes(n) }
        1 => s.blob(600),
        _ => { let n = s.urange(0, 70000); s.bytes(n) }
    }
}
/// The same bytes at a given distance from an 8-byte boundary.
fn placed<R>(b: &[u8], shift: usize, f: impl FnOnce(&[u8]) -> R) -> R {
    let mut v: Vec<u64> = vec![0; (b.len() + 23) / 8];
    let raw = unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut u8, v.len() * 8) };
    raw[shift..shift + b.len()].copy_from_slice(b);
    f(&raw[shift..shift + b.len()])
}

fn crc(s: &mut Src, cx: &mut Cx) -> Res {
    let b = data(s);
    let shift = s.idx(8);
    let cut = s.urange(0, b.len());
    let c0 = s.edge32();
    cx.start(s, || format!("{} at {} mod 8, split at {}, extending {:#x}", hex(&b), shift, cut, c0));
    cx.label_if(b.len() % 4 != 0, "length not a multiple of 4");
    cx.label_if(shift % 4 != 0, "unaligned");
    cx.label_if(b.len() >= 32, "strided path");
    cx.nontrivial_if(b.len() >= 2);
    let want = crc32c(&b);
    let v = placed(&b, shift, |x| must("crc", || CRC::value(x)))?;
    ensure!(v == want, "crc/value", "CRC of {} (at {} mod 8) is {:#x}, expected {:#x}", hex(&b), shift, v, want);
    let a = must("crc", || CRC::value(&b[..cut]))?;
    let e = placed(&b[cut..], shift, |x| must("crc", || CRC::extend(a, x)))?;
    ensure!(e == want, "crc/extend", "CRC of the first {} bytes of {} extended by the rest is {:#x}, expected {:#x}", cut, hex(&b), e, want);
    let e = placed(&b, shift, |x| must("crc", || CRC::extend(c0, x)))?;
    ensure!(e == crc_extend(c0, &b), "crc/extend", "{:#x} extended by {} is {:#x}, expected {:#x}", c0, hex(&b), e, crc_extend(c0, &b));
    Ok(())
}

/// Up to several MiB, in pieces.
fn big(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[3, 2, 1]) { 0 => s.urange(0, 200_000), 1 => (1usize << s.urange(16, 20)) + s.idx(9) - 4, _ => s.urange(0, 3_000_000) };
    let mut x = s.u64();
    let mut v = vec![0u8; n];
    match s.below(3) {
        0 => for c in v.chunks_mut(8) { let w = splitmix(&mut x).to_le_bytes(); let k = c.len(); c.copy_from_slice(&w[..k]); },
        1 => v.fill(x as u8),
        _ => if n > 0 { for _ in 0..5 { let i = splitmix(&mut x) as usize % n; v[i] = x as u8; } },
    }
    v
}

fn long_crc(s: &mut Src, cx: &mut Cx) -> Res {
    let b = big(s);
    let shift = s.idx(8);
    let k = s.urange(1, 5);
    let mut cuts: Vec<usize> = (0..k).map(|_| s.urange(0, b.len())).collect();
    cuts.push(b.len());
    cuts.sort();
    cx.start(s, || format!("{} at {} mod 8, pieces ending at {:?}", hex(&b), shift, cuts));
    cx.label_if(b.len() > 65536, "over 64 KiB");
    cx.label_if(b.len() > 1 << 20, "over 1 MiB");
    cx.nontrivial_if(b.len() >= 2);
    let want = crc32c(&b);
    let v = placed(&b, shift, |x| must("crc", || CRC::value(x)))?;
    ensure!(v == want, "crc/value", "CRC of {} bytes (at {} mod 8) is {:#x}, expected {:#x}", b.len(), shift, v, want);
    let mut e = 0;
    let mut at = 0;
    for c in &cuts { e = must("crc", || CRC::extend(e, &b[at..*c]))?; at = *c; }
    ensure!(e == want, "crc/extend", "CRC of {} bytes in pieces ending at {:?} is {:#x}, expected {:#x}", b.len(), cuts, e, want);
    Ok(())
}

fn long_hash(s: &mut Src, cx: &mut Cx) -> Res {
    let b = big(s);
    let seed = if s.bool() { s.u32() } else { HASH_DEFAULT_SEED };
    let shift = s.idx(8);
    cx.start(s, || format!("{} seed {:#x} at {} mod 8", hex(&b), seed, shift));
    cx.label_if(b.len() > 65536, "over 64 KiB");
    cx.label_if(b.len() > 1 << 20, "over 1 MiB");
    cx.nontrivial_if(!b.is_empty());
    let got = placed(&b, shift, |x| must("hash", || Hash::hash_code(x, seed)))?;
    ensure!(got == ldb_hash(&b, seed), "hash/value", "hash of {} bytes with seed {:#x} is {:#x}, expected {:#x}", b.len(), seed, got, ldb_hash(&b, seed));
    let sl = Slice::from_buf(&b);
    ensure!(must("hash", || sl.to_hash())? == ldb_hash(&b, HASH_DEFAULT_SEED), "hash/container", "to_hash of a slice of {} bytes is wrong", b.len());
    Ok(())
}

fn mask(s: &mut Src, cx: &mut Cx) -> Res {
    let mut c = if s.bool() { s.u32() } else { s.edge32().wrapping_add(*s.pick(&[0, 0xa282ead8, 0u32.wrapping_sub(0xa282ead8), 0x7fff_ffff])) };
    // so that what is masked is, half of the time, an extreme value itself
    if s.bool() { c = c.wrapping_sub(0xa282ead8).rotate_left(15); }
    cx.start(s, || format!("{:#x}", c));
    cx.nontrivial = true;
    let m = must("mask", || CRC::mask(c))?;
    ensure!(m == crc_mask(c), "mask/value", "mask({:#x}) is {:#x}, expected {:#x}", c, m, crc_mask(c));
    ensure!(must("mask", || c.to_mask())? == m, "mask/trait", "to_mask differs from mask for {:#x}", c);
    let u = must("unmask", || CRC::unmask(m))?;
    ensure!(u == c, "mask/inverse", "unmask(mask({:#x})) is {:#x}", c, u);
    let u = must("unmask", || ToMask::unmask(m))?;
    ensure!(u == c, "mask/inverse", "trait unmask(mask({:#x})) is {:#x}", c, u);
    // and the other way round
    let u = must("unmask", || CRC::unmask(c))?;
    ensure!(must("mask", || CRC::mask(u))? == c, "mask/inverse", "mask(unmask({:#x})) differs", c);
    ensure!(must("unmask", || ToMask::unmask(c))? == u, "mask/trait", "the trait's unmask({:#x}) is not {:#x}", c, u);
    ensure!(must("mask", || u.to_mask())? == c, "mask/inverse", "to_mask of unmask({:#x}) differs", c);
    Ok(())
}

/// Vectors and slices of elements of other sizes, as what they hold, bytes per element and what to call on them.
macro_rules! elements {
    ($b:expr, $what:ident, $call:expr, [$($t:ty),*]) => {{
        let b: &[u8] = $b;
        let mut all: Vec<(String, u32, u32, Vec<u8>)> = vec![];
        $({
            let size = std::mem::size_of::<$t>();
            let n = b.len() / size;
            let mut v: Vec<$t> = vec![unsafe { std::mem::zeroed() }; n];
            unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), v.as_mut_ptr() as *mut u8, n * size) };
            let bytes = b[..n * size].to_vec();
            let (x, y) = { let $what = &v; $call };
            all.push((format!("Vec<{}> of {}", stringify!($t), n), x, y, bytes.clone()));
            // a slice that does not begin where its vector does
            let from = n.min(1);
            let (x, y) = { let $what = &&v[from..]; $call };
            all.push((format!("&[{}] of {}", stringify!($t), n - from), x, y, bytes[from * size..].to_vec()));
        })*
        let none: Vec<()> = vec![(); b.len()];
        let (x, y) = { let $what = &none; $call };
        all.push(("Vec<()>".to_string(), x, y, vec![]));
        all
    }};
}

fn crc_containers(s: &mut Src, cx: &mut Cx) -> Res {
    let t = s.text(60);
    let b = data(s);
    let seed = s.edge32();
    let words: Vec<u32> = { let n = s.urange(0, 20); (0..n).map(|_| s.u32()).collect() };
    cx.start(s, || format!("text {:?}, bytes {}, words {:?}, init {:#x}", t, hex(&b), words, seed));
    cx.nontrivial_if(t.len() > 1 && b.len() > 1);
    let wb: Vec<u8> = words.iter().flat_map(|w| w.to_ne_bytes()).collect();
    let mut all: Vec<(&str, u32, u32, &[u8])> = vec![];
    let st = t.as_str();
    all.push(("&str", must("crc", || st.as_crc())?, must("crc", || st.as_crc_extend(seed))?, t.as_bytes()));
    all.push(("String", must("crc", || t.as_crc())?, must("crc", || t.as_crc_extend(seed))?, t.as_bytes()));
    let sl = Slice::from_buf(&b);
    all.push(("Slice", must("crc", || sl.as_crc())?, must("crc", || sl.as_crc_extend(seed))?, &b));
    all.push(("Vec<u8>", must("crc", || b.as_crc())?, must("crc", || b.as_crc_extend(seed))?, &b));
    let r: &[u8] = &b;
    all.push(("&[u8]", must("crc", || AsCrc::as_crc(&r))?, must("crc", || AsCrc::as_crc_extend(&r, seed))?, &b));
    all.push(("[u8]", must("crc", || <[u8] as AsCrc>::as_crc(r))?, must("crc", || <[u8] as AsCrc>::as_crc_extend(r, seed))?, &b));
    all.push(("Vec<u32>", must("crc", || words.as_crc())?, must("crc", || words.as_crc_extend(seed))?, &wb));
    for (n, a, e, bytes) in all {
        ensure!(a == crc32c(bytes), "crc/container", "as_crc of {} {} is {:#x}, expected {:#x}", n, hex(bytes), a, crc32c(bytes));
        ensure!(e == crc_extend(seed, bytes), "crc/container", "as_crc_extend of {} {} is {:#x}, expected {:#x}", n, hex(bytes), e, crc_extend(seed, bytes));
    }
    let wide = elements!(&b, v, (must("crc", || v.as_crc())?, must("crc", || v.as_crc_extend(seed))?), [i8, u16, [u8; 3], u64, [u16; 5], u128, [u8; 16], [u32; 5], [u64; 4], [u8; 67]]);
    for (n, a, e, bytes) in wide {
        ensure!(a == crc32c(&bytes), "crc/container", "as_crc of {} {} is {:#x}, expected {:#x}", n, hex(&bytes), a, crc32c(&bytes));
        ensure!(e == crc_extend(seed, &bytes), "crc/container", "as_crc_extend of {} {} is {:#x}, expected {:#x}", n, hex(&bytes), e, crc_extend(seed, &bytes));
    }
    Ok(())
}

fn hash(s: &mut Src, cx: &mut Cx) -> Res {
    let b = data(s);
    let seed = if s.bool() { s.u32() } else { s.edge32() };
    let shift = s.idx(8);
    cx.start(s, || format!("{} seed {:#x} at {} mod 8", hex(&b), seed, shift));
    cx.label(&format!("length {} mod 4", b.len() % 4));
    cx.label_if(b.len() % 4 != 0 && b[b.len() / 4 * 4..].iter().any(|x| *x >= 0x80), "high byte in the tail");
    cx.nontrivial_if(!b.is_empty());
    let got = placed(&b, shift, |x| must("hash", || Hash::hash_code(x, seed)))?;
    ensure!(got == ldb_hash(&b, seed), "hash/value", "hash of {} with seed {:#x} is {:#x}, expected {:#x}", hex(&b), seed, got, ldb_hash(&b, seed));
    Ok(())
}

fn hash_containers(s: &mut Src, cx: &mut Cx) -> Res {
    let t = s.text(60);
    let b = data(s);
    let seed = s.edge32();
    let words: Vec<u32> = { let n = s.urange(0, 20); (0..n).map(|_| s.u32()).collect() };
    cx.start(s, || format!("text {:?}, bytes {}, words {:?}, seed {:#x}", t, hex(&b), words, seed));
    cx.nontrivial_if(t.len() > 1 && b.len() > 1);
    ensure!(HASH_DEFAULT_SEED == 0xbc9f1d34, "hash/seed", "default seed {:#x}", HASH_DEFAULT_SEED);
    let wb: Vec<u8> = words.iter().flat_map(|w| w.to_ne_bytes()).collect();
    let mut all: Vec<(&str, u32, u32, &[u8])> = vec![];
    let st = t.as_str();
    all.push(("&str", must("hash", || st.to_hash())?, must("hash", || st.to_hash_with_seed(seed))?, t.as_bytes()));
    all.push(("String", must("hash", || t.to_hash())?, must("hash", || t.to_hash_with_seed(seed))?, t.as_bytes()));
    let sl = Slice::from_buf(&b);
    all.push(("Slice", must("hash", || sl.to_hash())?, must("hash", || sl.to_hash_with_seed(seed))?, &b));
    all.push(("Vec<u8>", must("hash", || b.to_hash())?, must("hash", || b.to_hash_with_seed(seed))?, &b));
    let r: &[u8] = &b;
    all.push(("&[u8]", must("hash", || r.to_hash())?, must("hash", || r.to_hash_with_seed(seed))?, &b));
    all.push(("Vec<u32>", must("hash", || words.to_hash())?, must("hash", || words.to_hash_with_seed(seed))?, &wb));
    for (n, a, e, bytes) in all {
        ensure!(a == ldb_hash(bytes, 0xbc9f1d34), "hash/container", "to_hash of {} {} is {:#x}, expected {:#x}", n, hex(bytes), a, ldb_hash(bytes, 0xbc9f1d34));
        ensure!(e == ldb_hash(bytes, seed), "hash/container", "to_hash_with_seed of {} {} is {:#x}, expected {:#x}", n, hex(bytes), e, ldb_hash(bytes, seed));
    }
    let wide = elements!(&b, v, (must("hash", || v.to_hash())?, must("hash", || v.to_hash_with_seed(seed))?), [i8, u16, [u8; 3], u64, [u16; 5], u128, [u8; 16], [u32; 5], [u64; 4], [u8; 67]]);
    for (n, a, e, bytes) in wide {
        ensure!(a == ldb_hash(&bytes, 0xbc9f1d34), "hash/container", "to_hash of {} {} is {:#x}, expected {:#x}", n, hex(&bytes), a, ldb_hash(&bytes, 0xbc9f1d34));
        ensure!(e == ldb_hash(&bytes, seed), "hash/container", "to_hash_with_seed of {} {} is {:#x}, expected {:#x}", n, hex(&bytes), e, ldb_hash(&bytes, seed));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C09", rule: "crc, long_crc: at least two bytes; mask: every case; containers: more than one byte of text and of data", assumptions: &["reference CRC-32C computed bit by bit from the Castagnoli polynomial"],
            subs: vec![Sub { name: "crc", quick: 60000, thorough: 4000000, run: crc }, Sub { name: "mask", quick: 40000, thorough: 4000000, run: mask }, Sub { name: "crc_containers", quick: 15000, thorough: 1000000, run: crc_containers }, Sub { name: "long_crc", quick: 250, thorough: 10000, run: long_crc }] },
        Prop { id: "C10", rule: "hash, long_hash: at least one byte; containers: more than one byte of text and of data", assumptions: &["reference hash written from LevelDB's util/hash.cc (tail bytes unsigned)"],
            subs: vec![Sub { name: "hash", quick: 60000, thorough: 4000000, run: hash }, Sub { name: "hash_containers", quick: 15000, thorough: 1000000, run: hash_containers }, Sub { name: "long_hash", quick: 300, thorough: 12000, run: long_hash }] },
    ]
}
