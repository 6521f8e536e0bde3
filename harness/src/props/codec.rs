//! C06-C08: integer and string encodings.
use crate::engine::*;
use crate::ensure;
use crate::refs::*;
use level_db_rust::util::coding::{varint_length, Decoder, Encoder};
use level_db_rust::util::slice::Slice;

#[derive(Clone, Debug)]
enum Val { F32(u32), F64(u64), V32(u32), V64(u64), Pre(Vec<u8>), Raw(Vec<u8>) }

fn val(s: &mut Src) -> Val {
    match s.below(6) {
        0 => Val::F32(s.edge32()),
        1 => Val::F64(s.edge64()),
        2 => Val::V32(s.edge32()),
        3 => Val::V64(s.edge64()),
        4 => Val::Pre(if s.chance(1, 20) { s.blob(40000) } else { s.blob(300) }),
        _ => Val::Raw(s.blob(300)),
    }
}
fn enc(v: &Val) -> Vec<u8> {
    match v {
        Val::F32(x) => x.to_le_bytes().to_vec(),
        Val::F64(x) => x.to_le_bytes().to_vec(),
        Val::V32(x) => varint(*x as u64),
        Val::V64(x) => varint(*x),
        Val::Pre(b) => { let mut o = varint(b.len() as u64); o.extend(b); o }
        Val::Raw(b) => b.clone(),
    }
}
fn show(v: &Val) -> String {
    match v {
        Val::F32(x) => format!("fixed32 {:#x}", x), Val::F64(x) => format!("fixed64 {:#x}", x),
        Val::V32(x) => format!("varint32 {:#x}", x), Val::V64(x) => format!("varint64 {:#x}", x),
        Val::Pre(b) => format!("prefixed {}", hex(b)), Val::Raw(b) => format!("raw {}", hex(b)),
    }
}
fn put(e: &mut Encoder, v: &Val, checked: bool) -> Result<(), String> {
    unsafe {
        let r = if checked {
            match v {
                Val::F32(x) => e.put_fixed32(*x), Val::F64(x) => e.put_fixed64(*x),
                Val::V32(x) => e.put_varint32(*x), Val::V64(x) => e.put_varint64(*x),
                Val::Pre(b) => e.put_length_prefixed_slice(&Slice::from_buf(b)), Val::Raw(b) => e.put_buf(b),
            }
        } else {
            match v {
                Val::F32(x) => e.uncheck_put_fixed32(*x), Val::F64(x) => e.uncheck_put_fixed64(*x),
                Val::V32(x) => e.uncheck_put_varint32(*x), Val::V64(x) => e.uncheck_put_varint64(*x),
                Val::Pre(b) => e.uncheck_put_length_prefixed_slice(&Slice::from_buf(b)), Val::Raw(b) => e.uncheck_put_buf(b),
            };
            Ok(())
        };
        r.map_err(|e| e.to_string())
    }
}
fn get_like(d: &mut Decoder, v: &Val, checked: bool) -> Result<Val, String> {
    unsafe {
        if checked {
            Ok(match v {
                Val::F32(_) => Val::F32(d.get_fixed32().map_err(|e| e.to_string())?), Val::F64(_) => Val::F64(d.get_fixed64().map_err(|e| e.to_string())?),
                Val::V32(_) => Val::V32(d.get_varint32().map_err(|e| e.to_string())?), Val::V64(_) => Val::V64(d.get_varint64().map_err(|e| e.to_string())?),
                Val::Pre(_) => Val::Pre(d.get_length_prefixed_slice().map_err(|e| e.to_string())?.to_vec()),
                Val::Raw(b) => Val::Raw(d.get_buf(b.len()).map_err(|e| e.to_string())?.to_vec()),
            })
        } else {
            Ok(match v {
                Val::F32(_) => Val::F32(d.uncheck_get_fixed32()), Val::F64(_) => Val::F64(d.uncheck_get_fixed64()),
                Val::V32(_) => Val::V32(d.uncheck_get_varint32()), Val::V64(_) => Val::V64(d.uncheck_get_varint64()),
                Val::Pre(_) => Val::Pre(d.uncheck_get_length_prefixed_slice().to_vec()), Val::Raw(b) => Val::Raw(d.uncheck_get_buf(b.len()).to_vec()),
            })
        }
    }
}
fn eq(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::F32(x), Val::F32(y)) | (Val::V32(x), Val::V32(y)) => x == y,
        (Val::F64(x), Val::F64(y)) | (Val::V64(x), Val::V64(y)) => x == y,
        (Val::Pre(x), Val::Pre(y)) | (Val::Raw(x), Val::Raw(y)) => x == y,
        _ => false,
    }
}
fn labels(cx: &mut Cx, vs: &[Val]) {
    for v in vs {
        match v {
            Val::V32(x) => cx.label(&format!("varint32 of {} bytes", varint(*x as u64).len())),
            Val::V64(x) => cx.label(&format!("varint64 of {} bytes", varint(*x).len())),
            Val::Pre(b) => cx.label(&format!("prefix of {} bytes", varint(b.len() as u64).len())),
            Val::F32(_) => cx.label("fixed32"), Val::F64(_) => cx.label("fixed64"), Val::Raw(_) => cx.label("raw"),
        }
    }
}

// ---------------------------------------------------------------- C06

/// (encode with the given buffer kind) bytes written, plus decoded straight from the encoder if asked.
fn encode(vs: &[Val], kind: usize, pad: usize, checked: &[bool]) -> Result<Vec<u8>, Fail> {
    let total: usize = vs.iter().map(|v| enc(v).len()).sum();
    let step = |e: &mut Encoder| -> Res {
        let mut at = 0;
        for (i, v) in vs.iter().enumerate() {
            let r = must("encode", || put(e, v, checked[i % checked.len()]))?;
            if let Err(m) = r { return fail("encode/error", format!("writing {} at {} of {} failed: {}", show(v), at, total, m)); }
            at += enc(v).len();
            ensure!(e.offset() == at, "encode/offset", "after {} the offset is {}, expected {}", show(v), e.offset(), at);
        }
        Ok(())
    };
    match kind {
        0 => { let mut v = vec![]; { let mut e = Encoder::with_vec(&mut v); step(&mut e)?; ensure!(e.len() == total, "encode/len", "length {} expected {}", e.len(), total); } Ok(v) }
        1 => {
            // a window at an odd place of a larger buffer
            let mut back = vec![0xA5u8; pad + total + 16];
            { let mut e = Encoder::with_buf(&mut back[pad..pad + total]); step(&mut e)?; }
            ensure!(back[..pad].iter().all(|b| *b == 0xA5) && back[pad + total..].iter().all(|b| *b == 0xA5), "encode/outside", "bytes outside the buffer were changed");
            Ok(back[pad..pad + total].to_vec())
        }
        _ => {
            let mut sl = Slice::from_vec(vec![0u8; total]);
            { let mut e = Encoder::with_slice(&mut sl); step(&mut e)?; }
            Ok(sl.to_vec())
        }
    }
}

fn decode(vs: &[Val], bytes: &[u8], kind: usize, pad: usize, checked: &[bool]) -> Res {
    let run = |d: &mut Decoder| -> Res {
        let mut at = 0;
        ensure!(d.offset() == 0 && d.limit() == bytes.len(), "decode/limit", "offset {} limit {} of {}", d.offset(), d.limit(), bytes.len());
        for (i, v) in vs.iter().enumerate() {
            ensure!(d.can_get() == (at < bytes.len()), "decode/can_get", "can_get() is {} at {} of {}", d.can_get(), at, bytes.len());
            let g = must("decode", || get_like(d, v, checked[i % checked.len()]))?;
            match g {
                Err(m) => return fail("decode/error", format!("reading back {} at {} failed: {}", show(v), at, m)),
                Ok(g) => ensure!(eq(&g, v), "decode/value", "wrote {} but read {} (at {})", show(v), show(&g), at),
            }
            at += enc(v).len();
            ensure!(d.offset() == at, "decode/offset", "after reading {} the offset is {}, expected {}", show(v), d.offset(), at);
        }
        ensure!(!d.can_get(), "decode/left", "input left after the last value");
        Ok(())
    };
    match kind {
        0 => { let v = bytes.to_vec(); let mut d = Decoder::with_vec(&v); run(&mut d) }
        1 => { let mut b = vec![0xEEu8; pad]; b.extend(bytes); let b = b.into_boxed_slice(); let mut d = Decoder::with_buf(&b[pad..]); run(&mut d) }
        2 => { let s = Slice::from_buf(bytes); let mut d = Decoder::with_slice(&s); run(&mut d) }
        _ => { let mut v = bytes.to_vec(); let e = Encoder::with_vec(&mut v); let mut d = e.create_decoder(); run(&mut d) }
    }
}

fn roundtrip(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(0, 24);
    let vs: Vec<Val> = (0..n).map(|_| val(s)).collect();
    let (ek, dk, pe, pd) = (s.idx(3), s.idx(4), s.idx(9), s.idx(9));
    let ce: Vec<bool> = (0..4).map(|_| s.bool()).collect();
    let cd: Vec<bool> = (0..4).map(|_| s.bool()).collect();
    cx.start(s, || format!("encoder {} pad {}, decoder {} pad {}, [{}]", ["vec", "buf", "slice"][ek], pe, ["vec", "buf", "slice", "from encoder"][dk], pd, vs.iter().map(show).collect::<Vec<_>>().join(", ")));
    labels(cx, &vs);
    cx.nontrivial_if(n >= 2);
    let got = encode(&vs, ek, pe, &ce)?;
    let want: Vec<u8> = vs.iter().flat_map(|v| enc(v)).collect();
    ensure!(got == want, "encode/bytes", "wrote {} expected {}", hex(&got), hex(&want));
    decode(&vs, &got, dk, pd, &cd)
}

/// Single values at and around every bit-length boundary.
fn edges(s: &mut Src, cx: &mut Cx) -> Res {
    let k = s.below(64) as u32;
    let d = s.range(0, 8);
    let v = (1u64 << k).wrapping_add(d).wrapping_sub(4);
    cx.start(s, || format!("{:#x}", v));
    cx.nontrivial = true;
    let l = must("varint_length", || varint_length(v))?;
    ensure!(l == varint(v).len(), "varint_length", "varint_length({:#x}) is {}, the encoding has {} bytes", v, l, varint(v).len());
    let vs = vec![Val::V64(v), Val::V32(v as u32), Val::F64(v), Val::F32(v as u32), Val::V64(!v), Val::V32(!v as u32)];
    for (i, one) in vs.iter().enumerate() {
        let one = std::slice::from_ref(one);
        for kind in 0..3 {
            for checked in [true, false] {
                let got = encode(one, kind, 1 + i % 3, &[checked])?;
                let want = enc(&one[0]);
                ensure!(got == want, "encode/bytes", "{}: wrote {} expected {}", show(&one[0]), hex(&got), hex(&want));
                decode(one, &got, kind, 1 + i % 3, &[checked])?;
            }
        }
    }
    cx.evals(6 * 6 - 1);
    Ok(())
}

/// Strings whose length prefix takes three or four bytes.
fn long_strings(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 3);
    let vs: Vec<Val> = (0..n).map(|_| {
        let n = match s.below(6) { 0 => 65536 + s.idx(5) - 2, 1 => (1 << 17) + s.idx(5) - 2, 2 => (1 << 14) + s.idx(5) - 2, 3 => if s.chance(1, 4) { (1 << 21) + s.idx(5) - 2 } else { 1 << 16 }, 4 => s.idx(200000), _ => s.idx(300) };
        Val::Pre(s.bytes(n))
    }).collect();
    let (ek, dk) = (s.idx(3), s.idx(4));
    let (ce, cd) = (vec![s.bool(), s.bool()], vec![s.bool(), s.bool()]);
    cx.start(s, || format!("encoder {} decoder {} strings of {:?} bytes", ek, dk, vs.iter().map(|v| enc(v).len()).collect::<Vec<_>>()));
    labels(cx, &vs);
    cx.nontrivial = true;
    let want: Vec<u8> = vs.iter().flat_map(|v| enc(v)).collect();
    let got = encode(&vs, ek, 1, &ce)?;
    ensure!(got == want, "encode/bytes", "wrote {}, expected {}", hex(&got), hex(&want));
    decode(&vs, &got, dk, 1, &cd)
}

/// Thousands of values in one buffer, from one seed.
fn long_sequence(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 8000);
    let seed = s.u64();
    let vs = many(n, seed);
    let (ek, dk) = (s.idx(3), s.idx(4));
    let (ce, cd) = (vec![s.bool(), s.bool(), s.bool()], vec![s.bool(), s.bool(), s.bool()]);
    let want: Vec<u8> = vs.iter().flat_map(|v| enc(v)).collect();
    cx.start(s, || format!("encoder {} decoder {}, {} values from seed {:#x}, {} bytes", ek, dk, n, seed, want.len()));
    cx.nontrivial_if(n >= 2);
    cx.label_if(want.len() > 65536, "over 64 KiB");
    let got = encode(&vs, ek, 3, &ce)?;
    let at = got.iter().zip(&want).position(|(a, b)| a != b);
    ensure!(got == want, "encode/bytes", "{} values: {} bytes differ from the {} expected at {:?}", n, got.len(), want.len(), at);
    decode(&vs, &got, dk, 3, &cd)
}
fn many(n: usize, seed: u64) -> Vec<Val> {
    let mut x = seed;
    (0..n).map(|_| {
        let r = splitmix(&mut x);
        let q = splitmix(&mut x);
        let v = q >> (r >> 8) % 64;
        let mut y = q;
        match r % 6 {
            0 => Val::F32(v as u32), 1 => Val::F64(v), 2 => Val::V32(v as u32), 3 => Val::V64(v),
            k => { let len = [(q % 30) as usize, (q % 300) as usize][(r >> 16) as usize % 2]; let b = (0..len).map(|_| splitmix(&mut y) as u8).collect(); if k == 4 { Val::Pre(b) } else { Val::Raw(b) } }
        }
    }).collect()
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug)]
enum Get { F32, F64, V32, V64, Pre, Buf(usize), Skip(usize), Can }

fn gets(s: &mut Src, n: usize, len: usize) -> Vec<Get> {
    (0..n).map(|_| match s.weighted(&[3, 3, 4, 4, 4, 2, 2, 1]) {
        0 => Get::F32, 1 => Get::F64, 2 => Get::V32, 3 => Get::V64, 4 => Get::Pre,
        5 => Get::Buf(amount(s, len)), 6 => Get::Skip(amount(s, len)), _ => Get::Can,
    }).collect()
}
fn amount(s: &mut Src, len: usize) -> usize {
    match s.weighted(&[5, 2, 1, 1]) {
        0 => s.len(40),
        1 => s.urange(0, len + 3),
        2 => s.edge64() as usize,
        _ => usize::MAX - s.urange(0, 40),
    }
}
fn malformed(s: &mut Src) -> Vec<u8> {
    let mut b = vec![];
    let n = s.urange(0, 10);
    for _ in 0..n {
        match s.below(8) {
            0 => { let k = s.urange(0, 12); b.extend(vec![0x80u8; k]); }
            1 => { let k = s.urange(0, 12); b.extend(vec![0xffu8; k]); }
            2 => b.extend(varint(s.edge64())),
            3 => b.extend(s.blob(30)),
            4 => b.extend(enc(&val(s))),
            5 => { let d = s.blob(20); let claim = s.edge32(); b.extend(varint(claim as u64)); b.extend(d); }
            6 => { let mut v = varint(s.edge64()); let l = v.len(); v[l - 1] |= 0x80; v.push(0); b.extend(v); }
            _ => { let k = s.urange(1, 9); for _ in 0..k { b.push(0x80 | s.u8()); } b.push(s.u8() & 0x7f); }
        }
    }
    if s.chance(1, 3) && !b.is_empty() { let cut = s.urange(0, b.len()); b.truncate(cut); }
    b
}

fn hostile(s: &mut Src, cx: &mut Cx) -> Res {
    let bytes = malformed(s);
    let n = s.urange(1, 12);
    let ops = gets(s, n, bytes.len());
    hostile_run(s, cx, bytes, ops)
}
/// Buffers beyond 64 KiB and beyond 1 MiB whose strings claim almost, exactly or just more than what is left.
fn long_hostile(s: &mut Src, cx: &mut Cx) -> Res {
    let n = match s.below(4) { 0 => 65536 + s.idx(9) - 4, 1 => (1 << 20) + s.idx(9) - 4, _ => s.idx(400_000) };
    let skip = match s.below(3) { 0 => s.idx(20), 1 => s.idx(n + 1), _ => 65536 - s.idx(5) }.min(n);
    let left = n - skip;
    let claim = match s.below(5) { 0 => left as u64, 1 => left as u64 + 65536, 2 => (left as u64).saturating_sub(s.below(12)), 3 => left as u64 + (1 << 32) - 3, _ => s.edge32() as u64 };
    let mut bytes: Vec<u8> = { let mut x = s.u64(); (0..n).map(|_| splitmix(&mut x) as u8).collect() };
    let c = varint(claim);
    for (i, b) in c.iter().enumerate() { if skip + i < n { bytes[skip + i] = *b; } }
    let mut ops = vec![Get::Skip(skip), Get::Pre];
    let more = s.urange(0, 4);
    let len = bytes.len();
    ops.extend(gets(s, more, len));
    cx.label_if(n > 65536, "over 64 KiB");
    hostile_run(s, cx, bytes, ops)
}
fn hostile_run(s: &mut Src, cx: &mut Cx, bytes: Vec<u8>, ops: Vec<Get>) -> Res {
    let kind = s.idx(4);
    let pad = s.idx(5);
    cx.start(s, || format!("decoder {}, bytes {}, ops {:?}", ["vec", "buf", "slice", "from encoder"][kind], hex(&bytes), ops));
    let mut outcome = (0u64, 0u64);
    let mut run = |d: &mut Decoder| -> Res {
        for (i, op) in ops.iter().enumerate() {
            let at = d.offset();
            let rest = &bytes[at.min(bytes.len())..];
            // what a reference decoder makes of it: value bytes and how many are consumed
            let want: Option<(Val, usize)> = match op {
                Get::F32 => (rest.len() >= 4).then(|| (Val::F32(u32::from_le_bytes(rest[..4].try_into().unwrap())), 4)),
                Get::F64 => (rest.len() >= 8).then(|| (Val::F64(u64::from_le_bytes(rest[..8].try_into().unwrap())), 8)),
                Get::V32 => get_varint(rest, 5).map(|(v, k)| (Val::V32(v as u32), k)),
                Get::V64 => get_varint(rest, 10).map(|(v, k)| (Val::V64(v), k)),
                Get::Pre => get_varint(rest, 5).and_then(|(v, k)| { let v = v as u32 as usize; (rest.len() - k >= v).then(|| (Val::Pre(rest[k..k + v].to_vec()), k + v)) }),
                Get::Buf(n) => (rest.len() >= *n).then(|| (Val::Raw(rest[..*n].to_vec()), *n)),
                Get::Skip(n) => (rest.len() >= *n).then(|| (Val::F64((at + *n) as u64), *n)),
                Get::Can => { ensure!(d.can_get() == !rest.is_empty(), "hostile/can_get", "can_get() is {} with {} bytes left", d.can_get(), rest.len()); continue }
            };
            let got = must("hostile", || -> Result<Val, String> { Ok(match op {
                Get::F32 => Val::F32(d.get_fixed32().map_err(|e| e.to_string())?), Get::F64 => Val::F64(d.get_fixed64().map_err(|e| e.to_string())?),
                Get::V32 => Val::V32(d.get_varint32().map_err(|e| e.to_string())?), Get::V64 => Val::V64(d.get_varint64().map_err(|e| e.to_string())?),
                Get::Pre => Val::Pre(d.get_length_prefixed_slice().map_err(|e| e.to_string())?.to_vec()),
                Get::Buf(n) => Val::Raw(d.get_buf(*n).map_err(|e| e.to_string())?.to_vec()),
                // the unchecked variant is defined strictly inside the buffer
                Get::Skip(n) if n % 2 == 1 && *n < rest.len() => Val::F64(unsafe { d.uncheck_skip(*n) } as u64),
                Get::Skip(n) => Val::F64(d.skip(*n).map_err(|e| e.to_string())? as u64),
                Get::Can => unreachable!(),
            }) })?;
            match (&got, &want) {
                (Ok(g), Some((w, k))) => {
                    outcome.0 += 1;
                    ensure!(eq(g, w), "hostile/value", "operation {} ({:?}) at {}: got {}, expected {}", i, op, at, show(g), show(w));
                    ensure!(d.offset() == at + k, "hostile/advance", "operation {} ({:?}) at {} advanced to {}, expected {}", i, op, at, d.offset(), at + k);
                }
                (Err(_), None) => {
                    outcome.1 += 1;
                    ensure!(d.offset() >= at && d.offset() <= bytes.len(), "hostile/offset", "failed operation {} ({:?}) moved the offset from {} to {} of {}", i, op, at, d.offset(), bytes.len());
                }
                (Ok(g), None) => return fail("hostile/accepted", format!("operation {} ({:?}) at {} of {} returned {} for malformed input {}", i, op, at, bytes.len(), show(g), hex(rest))),
                (Err(e), Some((w, _))) => return fail("hostile/refused", format!("operation {} ({:?}) at {} of {} failed ({}) where {} is encoded", i, op, at, bytes.len(), e, show(w))),
            }
        }
        Ok(())
    };
    let r = match kind {
        0 => { let v = bytes.clone(); let mut d = Decoder::with_vec(&v); run(&mut d) }
        1 => { let mut b = vec![0u8; pad]; b.extend(&bytes); let b = b.into_boxed_slice(); let mut d = Decoder::with_buf(&b[pad..]); run(&mut d) }
        2 => { let sl = Slice::from_buf(&bytes); let mut d = Decoder::with_slice(&sl); run(&mut d) }
        _ => { let mut v = bytes.clone(); let e = Encoder::with_vec(&mut v); let mut d = Decoder::from_encoder(&e); run(&mut d) }
    };
    cx.label_if(outcome.0 > 0, "some operation succeeded");
    cx.label_if(outcome.1 > 0, "some operation refused");
    cx.nontrivial_if(outcome.1 > 0 || outcome.0 > 1);
    r
}

// ---------------------------------------------------------------- C08

fn bounded(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 10);
    let vs: Vec<Val> = (0..n).map(|_| val(s)).collect();
    let total: usize = vs.iter().map(|v| enc(v).len()).sum();
    // sizes chosen so that some value just fits or just does not
    let size = match s.below(4) {
        0 => s.len(60),
        _ => { let k = s.urange(0, n); let upto: usize = vs[..k].iter().map(|v| enc(v).len()).sum(); let d = s.range(0, 6) as i64 - 3; (upto as i64 + d).max(0) as usize }
    }.min(total + 4);
    let kind = s.below(2);
    let pad = s.idx(9);
    cx.start(s, || format!("{} of {} bytes (pad {}), [{}]", ["buf", "slice"][kind as usize], size, pad, vs.iter().map(show).collect::<Vec<_>>().join(", ")));
    labels(cx, &vs);
    let mut model = vec![0x5Au8; size];
    let mut at = 0;
    let mut refused = false;
    let mut run = |e: &mut Encoder, peek: &dyn Fn(&Encoder) -> Vec<u8>| -> Res {
        for v in &vs {
            let b = enc(v);
            let fits = at + b.len() <= size;
            let r = must("bounded", || put(e, v, true))?;
            if fits {
                if let Err(m) = r { return fail("bounded/refused", format!("{} ({} bytes) at {} of {} was refused: {}", show(v), b.len(), at, size, m)); }
                model[at..at + b.len()].copy_from_slice(&b);
                at += b.len();
            } else {
                refused = true;
                ensure!(r.is_err(), "bounded/accepted", "{} ({} bytes) at {} of {} was accepted", show(v), b.len(), at, size);
            }
            ensure!(e.offset() == at, "bounded/offset", "after {} ({}) the offset is {}, expected {}", show(v), if fits { "stored" } else { "refused" }, e.offset(), at);
            ensure!(e.len() == size, "bounded/len", "the buffer's length became {}", e.len());
            let now = peek(e);
            ensure!(now == model, "bounded/bytes", "after {} ({}) the buffer is {}, expected {}", show(v), if fits { "stored" } else { "refused" }, hex(&now), hex(&model));
        }
        Ok(())
    };
    let peek = |e: &Encoder| -> Vec<u8> { let mut d = e.create_decoder(); d.get_buf(size).map(|x| x.to_vec()).unwrap_or_default() };
    let r = if kind == 0 {
        let mut back = vec![0xC3u8; pad + size + 24];
        back[pad..pad + size].fill(0x5A);
        let r = { let mut e = Encoder::with_buf(&mut back[pad..pad + size]); run(&mut e, &peek) };
        r?;
        ensure!(back[..pad].iter().all(|b| *b == 0xC3) && back[pad + size..].iter().all(|b| *b == 0xC3), "bounded/outside", "bytes outside the buffer were changed");
        ensure!(back[pad..pad + size] == model[..], "bounded/bytes", "final buffer {} expected {}", hex(&back[pad..pad + size]), hex(&model));
        Ok(())
    } else {
        let mut sl = Slice::from_vec(vec![0x5Au8; size]);
        { let mut e = Encoder::with_slice(&mut sl); run(&mut e, &peek)?; }
        ensure!(sl.to_vec() == model, "bounded/bytes", "final slice {} expected {}", hex(&sl.to_vec()), hex(&model));
        Ok(())
    };
    cx.label_if(refused, "some value refused");
    cx.nontrivial_if(refused && at > 0);
    cx.label_if(at == size, "filled exactly");
    r
}

/// As bounded, with thousands of values: offsets beyond 64 KiB.
fn long_bounded(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 6000);
    let seed = s.u64();
    let vs = many(n, seed);
    let total: usize = vs.iter().map(|v| enc(v).len()).sum();
    let size = match s.below(4) { 0 => total, 1 => total - s.idx(20).min(total), 2 => 65536usize.min(total) - s.idx(6).min(total), _ => s.idx(total + 1) };
    let grow = s.bool();
    let checked = vec![s.bool(), s.bool(), s.bool()];
    cx.start(s, || format!("{} values ({} bytes) from seed {:#x} into {}", n, total, seed, if grow { "a growing vector".into() } else { format!("{} bytes", size) }));
    cx.nontrivial_if(n >= 2);
    cx.label_if(size > 65536, "over 64 KiB");
    if grow {
        let got = encode(&vs, 0, 0, &checked)?;
        let want: Vec<u8> = vs.iter().flat_map(|v| enc(v)).collect();
        ensure!(got == want, "growable/bytes", "{} bytes written, differing from the {} expected at {:?}", got.len(), want.len(), got.iter().zip(&want).position(|(a, b)| a != b));
        return Ok(());
    }
    let mut back = vec![0xC3u8; size + 32];
    let mut model = vec![0xC3u8; size];
    let mut at = 0;
    {
        let mut e = Encoder::with_buf(&mut back[8..8 + size]);
        for v in &vs {
            let b = enc(v);
            let fits = at + b.len() <= size;
            let r = must("bounded", || put(&mut e, v, true))?;
            ensure!(r.is_ok() == fits, if fits { "bounded/refused" } else { "bounded/accepted" }, "{} ({} bytes) at {} of {}: {:?}", show(v), b.len(), at, size, r);
            if fits { model[at..at + b.len()].copy_from_slice(&b); at += b.len(); }
            ensure!(e.offset() == at, "bounded/offset", "after {} the offset is {}, expected {}", show(v), e.offset(), at);
        }
    }
    ensure!(back[8..8 + size] == model[..], "bounded/bytes", "the buffer differs at {:?}", back[8..8 + size].iter().zip(&model).position(|(a, b)| a != b));
    ensure!(back[..8].iter().chain(&back[8 + size..]).all(|b| *b == 0xC3), "bounded/outside", "bytes outside the buffer were changed");
    Ok(())
}

fn growable(s: &mut Src, cx: &mut Cx) -> Res {
    let init = if s.bool() { vec![] } else { let most = if s.chance(1, 4) { 3000 } else { 60 }; s.blob(most) };
    let reserve = s.len(200);
    let n = s.urange(1, 14);
    let vs: Vec<Val> = (0..n).map(|_| val(s)).collect();
    let checked: Vec<bool> = (0..4).map(|_| s.bool()).collect();
    cx.start(s, || format!("vec of {} bytes, spare capacity {}, [{}]", init.len(), reserve, vs.iter().map(show).collect::<Vec<_>>().join(", ")));
    labels(cx, &vs);
    cx.label_if(!init.is_empty(), "writes over existing content");
    cx.nontrivial_if(n >= 2);
    let mut v = Vec::with_capacity(init.len() + reserve);
    v.extend(&init);
    let mut model = init.clone();
    let mut at = 0;
    {
        let mut e = Encoder::with_vec(&mut v);
        for (i, x) in vs.iter().enumerate() {
            let b = enc(x);
            let r = must("growable", || put(&mut e, x, checked[i % 4]))?;
            if let Err(m) = r { return fail("growable/refused", format!("{} was refused: {}", show(x), m)); }
            if model.len() < at + b.len() { model.resize(at + b.len(), 0); }
            model[at..at + b.len()].copy_from_slice(&b);
            at += b.len();
            ensure!(e.offset() == at, "growable/offset", "after {} the offset is {}, expected {}", show(x), e.offset(), at);
            ensure!(e.len() == model.len(), "growable/len", "after {} the length is {}, expected {}", show(x), e.len(), model.len());
        }
    }
    ensure!(v == model, "growable/bytes", "contents {} expected {}", hex(&v), hex(&model));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C06", rule: "roundtrip, long_sequence: at least two values; edges, long_strings: every case", assumptions: &["strings up to about 256 MiB"],
            subs: vec![Sub { name: "roundtrip", quick: 60000, thorough: 4000000, run: roundtrip }, Sub { name: "edges", quick: 8000, thorough: 100000, run: edges }, Sub { name: "long_strings", quick: 1500, thorough: 60000, run: long_strings }, Sub { name: "long_sequence", quick: 300, thorough: 15000, run: long_sequence }] },
        Prop { id: "C07", rule: "at least one operation was refused, or at least two succeeded", assumptions: &[],
            subs: vec![Sub { name: "hostile", quick: 150000, thorough: 10000000, run: hostile }, Sub { name: "long_hostile", quick: 1500, thorough: 80000, run: long_hostile }] },
        Prop { id: "C08", rule: "bounded: some value was stored and some refused; growable, long_bounded: at least two values", assumptions: &["an encoder over a non-empty vector overwrites it from the front (pinned by the existing tests)"],
            subs: vec![Sub { name: "bounded", quick: 80000, thorough: 5000000, run: bounded }, Sub { name: "growable", quick: 30000, thorough: 2000000, run: growable }, Sub { name: "long_bounded", quick: 400, thorough: 15000, run: long_bounded }] },
    ]
}
