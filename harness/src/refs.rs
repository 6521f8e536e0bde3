//! Reference implementations, written from the LevelDB documentation and independent of /repo.

pub fn crc32c_update(mut state: u32, data: &[u8]) -> u32 {
    // plain byte-at-a-time table over the reflected Castagnoli polynomial
    static TABLE: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = TABLE.get_or_init(|| {
        let mut t = [0u32; 256];
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0x82F6_3B78 } else { c >> 1 }; }
            t[i as usize] = c;
        }
        t
    });
    for b in data { state = t[((state ^ *b as u32) & 0xff) as usize] ^ (state >> 8); }
    state
}
pub fn crc32c(data: &[u8]) -> u32 { !crc32c_update(!0, data) }
pub fn crc_extend(c: u32, data: &[u8]) -> u32 { !crc32c_update(!c, data) }
pub fn crc_mask(c: u32) -> u32 { c.rotate_right(15).wrapping_add(0xa282_ead8) }

pub fn ldb_hash(data: &[u8], seed: u32) -> u32 {
    let m: u32 = 0xc6a4_a793;
    let mut h = seed ^ (data.len() as u32).wrapping_mul(m);
    let mut ch = data.chunks_exact(4);
    for c in &mut ch {
        h = h.wrapping_add(u32::from_le_bytes([c[0], c[1], c[2], c[3]]));
        h = h.wrapping_mul(m);
        h ^= h >> 16;
    }
    let r = ch.remainder();
    if !r.is_empty() {
        // LevelDB adds the bytes as unsigned (util/hash.cc casts each to uint8_t)
        for (i, b) in r.iter().enumerate().rev() { h = h.wrapping_add((*b as u32) << (8 * i)); }
        h = h.wrapping_mul(m);
        h ^= h >> 24;
    }
    h
}

pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 { out.push(v as u8 | 0x80); v >>= 7; }
    out.push(v as u8);
}
pub fn varint(v: u64) -> Vec<u8> { let mut o = vec![]; put_varint(&mut o, v); o }

/// LevelDB's GetVarint32Ptr / GetVarint64Ptr: value and bytes consumed.
pub fn get_varint(b: &[u8], max: usize) -> Option<(u64, usize)> {
    let mut r = 0u64;
    for (i, x) in b.iter().take(max).enumerate() {
        let sh = 7 * i as u32;
        let part = (*x & 0x7f) as u64;
        r |= part.checked_shl(sh).unwrap_or(0);
        if x & 0x80 == 0 { return Some((r, i + 1)); }
    }
    None
}

pub const BLOCK: usize = 32768;
pub const HEADER: usize = 7;

/// One log record as written: where it starts (its first header) and ends.
#[derive(Debug, Clone)]
pub struct Span { pub start: usize, pub end: usize, pub frags: usize }

/// Reference log writer (LevelDB doc/log_format.md and log_writer.cc).
pub fn log_encode(records: &[Vec<u8>]) -> (Vec<u8>, Vec<Span>) {
    let mut out: Vec<u8> = vec![];
    let mut spans = vec![];
    for r in records {
        let mut left: &[u8] = r;
        let mut begin = true;
        let mut start = 0;
        let mut frags = 0;
        loop {
            let off = out.len() % BLOCK;
            if BLOCK - off < HEADER { out.resize(out.len() + (BLOCK - off), 0); }
            let off = out.len() % BLOCK;
            let avail = BLOCK - off - HEADER;
            let n = left.len().min(avail);
            let end = n == left.len();
            let ty = match (begin, end) { (true, true) => 1u8, (true, false) => 2, (false, false) => 3, (false, true) => 4 };
            if begin { start = out.len(); }
            log_fragment(&mut out, ty, &left[..n]);
            frags += 1;
            left = &left[n..];
            begin = false;
            if end { break; }
        }
        spans.push(Span { start, end: out.len(), frags });
    }
    (out, spans)
}

pub fn log_fragment(out: &mut Vec<u8>, ty: u8, data: &[u8]) {
    let mut s = crc32c_update(!0, &[ty]);
    s = crc32c_update(s, data);
    out.extend_from_slice(&crc_mask(!s).to_le_bytes());
    out.extend_from_slice(&(data.len() as u16).to_le_bytes());
    out.push(ty);
    out.extend_from_slice(data);
}

/// Reference Bloom filter (util/bloom.cc).
pub fn bloom_k(bits: usize) -> usize { ((bits as f64 * 0.69).round() as usize).clamp(1, 30) }
pub fn bloom_build(keys: &[Vec<u8>], bits: usize) -> Vec<u8> {
    let k = bloom_k(bits);
    let mut n = keys.len() * bits;
    if n < 64 { n = 64; }
    let bytes = (n + 7) / 8;
    let nbits = bytes * 8;
    let mut f = vec![0u8; bytes + 1];
    f[bytes] = k as u8;
    for key in keys {
        let mut h = ldb_hash(key, 0xbc9f_1d34);
        let delta = (h >> 17) | (h << 15);
        for _ in 0..k {
            let pos = h as usize % nbits;
            f[pos / 8] |= 1 << (pos % 8);
            h = h.wrapping_add(delta);
        }
    }
    f
}
pub fn bloom_match(key: &[u8], f: &[u8]) -> bool {
    if f.len() < 2 { return false; }
    let nbits = (f.len() - 1) * 8;
    let k = f[f.len() - 1];
    if k > 30 { return true; }
    let mut h = ldb_hash(key, 0xbc9f_1d34);
    let delta = (h >> 17) | (h << 15);
    for _ in 0..k {
        let pos = h as usize % nbits;
        if f[pos / 8] & (1 << (pos % 8)) == 0 { return false; }
        h = h.wrapping_add(delta);
    }
    true
}
