//! C14-C16: key order, key shortening, byte slices.
use crate::alloc::thread_live;
use crate::engine::*;
use crate::ensure;
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::slice::Slice;
use level_db_rust::verif_hooks::Comparator;
use std::cmp::Ordering;

/// A family of keys that are close to one another: shared prefixes, single differing bytes, extensions.
pub fn related(s: &mut Src, n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let mut k = if v.is_empty() || s.chance(1, 4) { s.blob(40) } else { s.pick(&v).clone() };
        for _ in 0..s.urange(0, 2) {
            match s.below(6) {
                0 if !k.is_empty() => { let i = s.idx(k.len()); k[i] = k[i].wrapping_add(*s.pick(&[1u8, 2, 255, 254, 128])); }
                1 if !k.is_empty() => { let i = s.idx(k.len()); k[i] = *s.pick(&[0u8, 1, 0x7f, 0x80, 0xfe, 0xff]); }
                2 => { let n = s.idx(4); k.extend(vec![*s.pick(&[0u8, 0xff, b'a']); n]); }
                3 if !k.is_empty() => { let n = s.idx(k.len()); k.truncate(n); }
                4 => k.push(s.u8()),
                _ => {}
            }
        }
        v.push(k);
    }
    v
}

fn order(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(2, 6);
    let ks = related(s, n);
    cx.start(s, || format!("keys [{}]", ks.iter().map(|k| hex(k)).collect::<Vec<_>>().join(", ")));
    let c = BytewiseComparatorImpl::default();
    let mut distinct = false;
    for a in &ks {
        for b in &ks {
            let want = a.cmp(b);
            distinct |= want != Ordering::Equal;
            let got = must("compare", || c.compare(a, b))?;
            ensure!(got == Some(want), "order/compare", "compare({}, {}) is {:?}, unsigned byte order says {:?}", hex(a), hex(b), got, want);
            let (sa, sb) = (Slice::from_buf(a), Slice::from_buf(b));
            let got = must("slice-order", || sa.partial_cmp(&sb))?;
            ensure!(got == Some(want), "order/slice", "slice order of {} and {} is {:?}, expected {:?}", hex(a), hex(b), got, want);
            ensure!(must("slice-order", || sa == sb)? == (a == b), "order/eq", "slice equality of {} and {} is wrong", hex(a), hex(b));
            ensure!(must("slice-order", || sa < sb)? == (a < b) && must("slice-order", || sa >= sb)? == (a >= b), "order/slice", "slice comparison operators of {} and {} are wrong", hex(a), hex(b));
            cx.label(match want { Ordering::Less => "less", Ordering::Equal => "equal", _ => "greater" });
            cx.label_if(a != b && b.starts_with(a), "proper prefix");
        }
    }
    ensure!(must("name", || c.get_name())? == "leveldb.BytewiseComparator", "order/name", "the comparator's name changed");
    cx.evals((n * n) as u64 - 1);
    cx.nontrivial_if(distinct);
    Ok(())
}

/// Long keys: one is the other with more bytes behind, or they differ in one byte far from the start. Sizes and
/// their differences lie around the points where 8- and 16-bit arithmetic wraps.
fn long_order(s: &mut Src, cx: &mut Cx) -> Res {
    let base = { let n = s.pick(&[256usize, 600, 66000, 140000]) + s.idx(40); s.bytes(n) };
    let size = |s: &mut Src| -> usize { let unit = *s.pick(&[256usize, 256, 65536, 1]); (unit * s.urange(0, 4) + s.idx(12)).saturating_sub(s.idx(3)).min(base.len()) };
    let ks: Vec<Vec<u8>> = (0..3).map(|_| {
        let n = size(s);
        let mut k = base[..n].to_vec();
        if n > 0 && s.chance(1, 3) { let i = match s.below(3) { 0 => n - 1, 1 => size(s).min(n - 1), _ => s.idx(n) }; k[i] ^= 1 << s.idx(8); }
        k
    }).collect();
    cx.start(s, || format!("keys [{}]", ks.iter().map(|k| hex(k)).collect::<Vec<_>>().join(", ")));
    cx.nontrivial_if(ks[0] != ks[1]);
    let c = BytewiseComparatorImpl::default();
    for a in &ks {
        for b in &ks {
            let want = a.cmp(b);
            let got = must("compare", || c.compare(a, b))?;
            ensure!(got == Some(want), "order/compare", "compare of keys of {} and {} bytes is {:?}, unsigned byte order says {:?}", a.len(), b.len(), got, want);
            let (sa, sb) = (Slice::from_buf(a), Slice::from_buf(b));
            ensure!(must("slice-order", || sa.partial_cmp(&sb))? == Some(want), "order/slice", "slice order of {} and {} bytes is wrong", a.len(), b.len());
            ensure!(must("slice-order", || sa == sb)? == (a == b), "order/eq", "slice equality of {} and {} bytes is wrong", a.len(), b.len());
            ensure!(must("starts_with", || sa.starts_with(&sb))? == a.starts_with(b), "order/starts_with", "starts_with of {} and {} bytes is wrong", a.len(), b.len());
            cx.label_if(a.len() != b.len() && (a.len().abs_diff(b.len())) % 256 == 0, "sizes differ by a multiple of 256");
            cx.label_if(a.len() > 65535 || b.len() > 65535, "more than 64 KiB");
            cx.label_if(a != b && b.starts_with(a), "proper prefix");
        }
    }
    cx.evals(8);
    Ok(())
}

/// The library represents keys as String here; this is its own conversion from arbitrary bytes.
pub fn to_string(b: &[u8]) -> String { String::from(Slice::from_buf(b)) }

fn separator(s: &mut Src, cx: &mut Cx) -> Res {
    let v = related(s, 2);
    let (a, b) = (v[0].clone(), v[1].clone());
    separator_of(s, cx, a, b)
}
/// Keys that agree on hundreds to tens of thousands of bytes, with few differences behind them.
fn long_separator(s: &mut Src, cx: &mut Cx) -> Res {
    let n = match s.below(4) { 0 => 250 + s.idx(12), 1 => 65530 + s.idx(12), 2 => s.idx(3000), _ => s.idx(140_000) };
    let common = if s.chance(1, 4) { vec![0xff; n] } else { s.bytes(n) };
    let v = related(s, 2);
    let (mut a, mut b) = (common.clone(), common);
    a.extend(&v[0]);
    b.extend(&v[1]);
    cx.label_if(n > 255, "over 255 bytes in common");
    cx.label_if(n > 65535, "over 64 KiB in common");
    separator_of(s, cx, a, b)
}
fn separator_of(s: &mut Src, cx: &mut Cx, a: Vec<u8>, b: Vec<u8>) -> Res {
    cx.start(s, || format!("start {} limit {}", hex(&a), hex(&b)));
    let c = BytewiseComparatorImpl::default();
    let start = to_string(&a);
    let got = must("separator", || c.find_shortest_separator(&start, &Slice::from_buf(&b)))?.into_bytes();
    ensure!(start.as_bytes() == &a[..], "separator/argument", "the start key was changed");
    let d = a.iter().zip(&b).position(|(x, y)| x != y);
    cx.label_if(d.is_none(), "one key is a prefix of the other");
    cx.label_if(a < b, "start < limit");
    cx.nontrivial_if(a != b);
    if a < b {
        ensure!(got >= a, "separator/below-start", "separator of {} and {} is {}, which is below the start", hex(&a), hex(&b), hex(&got));
        ensure!(got < b, "separator/not-below-limit", "separator of {} and {} is {}, which is not below the limit", hex(&a), hex(&b), hex(&got));
        ensure!(got.len() <= a.len(), "separator/longer", "separator of {} and {} is {}, which is longer than the start", hex(&a), hex(&b), hex(&got));
        if let Some(d) = d {
            if a[d] < 0xff && a[d] + 1 < b[d] {
                cx.label("can be shortened");
                ensure!(got.len() <= d + 1, "separator/not-shortened", "separator of {} and {} is {}, although {} bytes suffice", hex(&a), hex(&b), hex(&got), d + 1);
            }
        }
    } else {
        ensure!(got == a, "separator/changed", "start {} is not below limit {}, but the result is {}", hex(&a), hex(&b), hex(&got));
    }
    Ok(())
}

fn successor(s: &mut Src, cx: &mut Cx) -> Res {
    let mut k = if s.bool() { let n = if s.chance(1, 20) { *s.pick(&[256usize, 1000, 65536]) + s.idx(9) - 4 } else { s.urange(0, 6) }; vec![0xff; n] } else { vec![] };
    k.extend(related(s, 1).remove(0));
    cx.start(s, || format!("key {}", hex(&k)));
    let c = BytewiseComparatorImpl::default();
    let key = to_string(&k);
    let got = must("successor", || c.find_short_successor(&key))?.into_bytes();
    ensure!(key.as_bytes() == &k[..], "successor/argument", "the key was changed");
    let p = k.iter().position(|b| *b != 0xff);
    cx.label_if(p.is_none(), "all bytes 0xff");
    cx.label_if(p.map_or(false, |p| p > 0), "leading 0xff");
    cx.nontrivial_if(!k.is_empty());
    ensure!(got >= k, "successor/below", "successor of {} is {}, which is below it", hex(&k), hex(&got));
    ensure!(got.len() <= k.len(), "successor/longer", "successor of {} is {}, which is longer", hex(&k), hex(&got));
    match p {
        None => ensure!(got == k, "successor/changed", "{} has no shorter successor, but the result is {}", hex(&k), hex(&got)),
        Some(p) => ensure!(got.len() <= p + 1 && got > k, "successor/not-shortened", "successor of {} is {}, expected a greater key of {} bytes", hex(&k), hex(&got), p + 1),
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug)]
enum Op {
    New(usize, Vec<u8>),
    Text(usize, String),
    Clone(usize),
    RemovePrefix(usize, usize),
    StartsWith(usize, usize),
    Merge(usize, usize, Option<String>),
    Sub(usize, usize, usize),
    Index(usize, usize, usize, usize),
    IndexMut(usize, usize, usize, usize, u8),
    Compare(usize, usize),
    Queries(usize),
    Into(usize, usize),
    Drop(usize),
    DerefMut(usize, usize, u8),
}

fn position(s: &mut Src) -> usize { match s.weighted(&[6, 2, 1]) { 0 => s.idx(12), 1 => s.idx(200), _ => *s.pick(&[usize::MAX, usize::MAX - 1, 1 << 40]) } }

fn slice_ops(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 30);
    let ops: Vec<Op> = (0..n).map(|i| if i == 0 { Op::New(s.idx(3), s.blob(60)) } else { match s.below(15) {
        0 => { let most = if s.chance(1, 10) { 5000 } else { 60 }; Op::New(s.idx(3), s.blob(most)) }
        1 => Op::Text(s.idx(2), s.text(20)),
        2 => Op::Clone(s.idx(8)),
        3 => Op::RemovePrefix(s.idx(8), position(s)),
        4 => Op::StartsWith(s.idx(8), s.idx(8)),
        5 | 6 => Op::Merge(s.idx(8), s.idx(8), joiner(s, 6)),
        7 => Op::Sub(s.idx(8), position(s), position(s)),
        8 => Op::Index(s.idx(8), s.idx(4), position(s), position(s)),
        9 => Op::IndexMut(s.idx(8), s.idx(3), position(s), position(s), s.u8()),
        10 => Op::Compare(s.idx(8), s.idx(8)),
        11 => Op::Queries(s.idx(8)),
        12 => Op::Into(s.idx(8), s.idx(2)),
        13 => Op::DerefMut(s.idx(8), position(s), s.u8()),
        _ => Op::Drop(s.idx(8)),
    } }).collect();
    cx.start(s, || clip(format!("{:?}", ops), 1200));
    cx.nontrivial_if(n >= 3);
    slice_run(&ops, cx)
}

/// Slices of 64 KiB to a few MiB.
fn big_slices(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 12);
    let mut sizes: Vec<usize> = vec![];
    let mut total = 0usize;
    let ops: Vec<Op> = (0..n).map(|i| {
        let big = |s: &mut Src| match s.below(4) { 0 => 65536 + s.idx(5) - 2, 1 => s.idx(300_000), 2 => (1 << 20) + s.idx(5) - 2, _ => s.idx(5000) };
        let at = |s: &mut Src, sizes: &Vec<usize>| -> usize { if sizes.is_empty() || s.chance(1, 4) { s.idx(400_000) } else { (*s.pick(sizes) + s.idx(5)).saturating_sub(2 + if s.bool() { s.idx(70_000) } else { 0 }) } };
        let which = if i == 0 { 0 } else { s.below(9) };
        match which {
            0 | 1 => { let mut k = big(s); total += k; if total > 5_000_000 { k = 7; } sizes.push(k); let k = s.bytes(k); Op::New(s.idx(3), k) }
            2 => Op::Clone(s.idx(4)),
            3 => Op::RemovePrefix(s.idx(4), at(s, &sizes)),
            4 => Op::Merge(s.idx(4), s.idx(4), joiner(s, 300)),
            5 => { let a = at(s, &sizes); Op::Sub(s.idx(4), a, at(s, &sizes)) }
            6 => { let a = at(s, &sizes); Op::Index(s.idx(4), s.idx(4), a, at(s, &sizes)) }
            7 => Op::Compare(s.idx(4), s.idx(4)),
            _ => Op::StartsWith(s.idx(4), s.idx(4)),
        }
    }).collect();
    cx.start(s, || clip(format!("sizes {:?}: {:?}", sizes, ops.iter().map(|o| clip(format!("{:?}", o), 60)).collect::<Vec<_>>()), 1200));
    cx.nontrivial_if(n >= 3);
    cx.label_if(sizes.iter().any(|k| *k > 1 << 20), "over 1 MiB");
    slice_run(&ops, cx)
}

/// Two long strings that differ in one place, or in length only.
fn near_equal(s: &mut Src, cx: &mut Cx) -> Res {
    let n = match s.below(4) { 0 => s.urange(1, 300), 1 => (1usize << s.urange(3, 18)) + s.idx(5) - 2, 2 => s.urange(1, 20_000), _ => s.urange(1, 300_000) };
    let seed = s.u64();
    let at = match s.below(4) { 0 => s.idx(n), 1 => n - 1 - s.idx(n.min(20)), 2 => s.idx(n.min(20)), _ => (1usize << s.idx(18)).min(n - 1) };
    let how = s.below(6);
    let x = 1 + s.below(255) as u8;
    let kind = s.idx(3);
    let a: Vec<u8> = if seed % 5 == 0 { vec![seed as u8; n] } else { let mut y = seed; (0..n).map(|_| splitmix(&mut y) as u8).collect() };
    let mut b = a.clone();
    match how { 0 | 1 => b[at] ^= x, 2 => b[at] = b[at].wrapping_add(1), 3 => b.truncate(at), 4 => b.push(x), _ => {} }
    cx.start(s, || format!("{} bytes from seed {:#x}, second one: {}", n, seed, match how { 0 | 1 => format!("byte {} xor {}", at, x), 2 => format!("byte {} one more", at), 3 => format!("first {} bytes", at), 4 => format!("one more byte {}", x), _ => "the same".into() }));
    cx.nontrivial_if(n >= 2);
    cx.label_if(how < 3 && at >= 4096, "first difference beyond 4 KiB");
    cx.label_if(how < 3 && at >= 65536, "first difference beyond 64 KiB");
    let ops = [Op::New(kind, a), Op::New((kind + 1) % 3, b), Op::Compare(0, 1), Op::Compare(1, 0), Op::StartsWith(0, 1), Op::StartsWith(1, 0), Op::Clone(1), Op::Compare(2, 1), Op::Compare(2, 0)];
    slice_run(&ops, cx)
}

/// Runs f and reports blocks that outlive it (labels and failure text are made outside).
pub fn leak_free<T>(what: &str, f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    let a = thread_live();
    let r = f();
    let b = thread_live();
    match r {
        Ok(v) => { ensure!(b.0 <= a.0, "memory/leak", "{}: {} blocks ({} bytes) were not released", what, b.0 - a.0, b.1 - a.1); Ok(v) }
        Err(e) => Err(e),
    }
}

fn joiner(s: &mut Src, max: usize) -> Option<String> {
    if s.bool() { return None; }
    let max = if s.chance(1, 40) { 5000 } else { max };
    Some(s.text(max))
}

fn slice_run(ops: &[Op], cx: &mut Cx) -> Res {
    let mut labels: Vec<&'static str> = Vec::with_capacity(ops.len() * 4);
    let r = leak_free("slice operations", || {
        let mut real: Vec<Slice> = vec![];
        let mut model: Vec<Vec<u8>> = vec![];
        for op in ops {
            slice_op(op, &mut real, &mut model, &mut labels)?;
            // no operation affects any other slice
            for (i, (r, m)) in real.iter().zip(&model).enumerate() {
                ensure!(&**r == &m[..], "slice/content", "after {:?} slice {} is {}, expected {}", op, i, hex(&**r), hex(m));
            }
        }
        Ok(())
    });
    for l in labels { cx.label(l); }
    r
}

fn slice_op(op: &Op, real: &mut Vec<Slice>, model: &mut Vec<Vec<u8>>, labels: &mut Vec<&'static str>) -> Res {
    let at = |i: usize, n: usize| if n == 0 { None } else { Some(i % n) };
    macro_rules! sel { ($i:expr) => { match at(*$i, real.len()) { Some(i) => i, None => return Ok(()) } } }
    // an operation that the model cannot do must be refused (by a panic) and leave the slice alone
    macro_rules! refused { ($ok:expr, $sig:expr, $what:expr, $f:expr) => {{
        let r = guard($f);
        match (&r, $ok) {
            (Ok(_), false) => return fail($sig, format!("{} was not refused", $what)),
            (Err(m), true) => return fail($sig, format!("{} failed: {}", $what, m)),
            (_, false) => labels.push("out of range, refused"),
            _ => {}
        }
        r.ok()
    }} }
    match op {
        Op::New(k, b) => {
            let mut src = b.clone();
            let s = must("slice/new", || match k { 0 => Slice::from_buf(&src), 1 => Slice::from_vec(src.clone()), _ => {
                // exactly sized heap memory handed over
                let v = src.clone().into_boxed_slice();
                let n = v.len();
                if n == 0 { Slice::default() } else { let p = Box::into_raw(v) as *mut u8; unsafe { Slice::from_raw_parts(p, n) } }
            } })?;
            for x in src.iter_mut() { *x ^= 0xff; } // the source changes, the slice must not
            real.push(s);
            model.push(b.clone());
        }
        Op::Text(k, t) => {
            real.push(must("slice/new", || if *k == 0 { Slice::from(t.as_str()) } else { Slice::from(t.clone()) })?);
            model.push(t.as_bytes().to_vec());
        }
        Op::Clone(i) => { let i = sel!(i); let c = must("slice/clone", || real[i].clone())?; real.push(c); let c = model[i].clone(); model.push(c); }
        Op::RemovePrefix(i, n) => {
            let i = sel!(i);
            let ok = *n <= model[i].len();
            let r = refused!(ok, "slice/remove_prefix", format!("remove_prefix({}) of {} bytes", n, model[i].len()), || real[i].remove_prefix(*n));
            if let Some(r) = r { real.push(r); let m = model[i][*n..].to_vec(); model.push(m); }
        }
        Op::StartsWith(i, j) => {
            let (i, j) = (sel!(i), sel!(j));
            let got = must("slice/starts_with", || real[i].starts_with(&real[j]))?;
            let want = model[i].starts_with(&model[j]);
            ensure!(got == want, "slice/starts_with", "starts_with({}, {}) is {}", hex(&model[i]), hex(&model[j]), got);
            if want && !model[j].is_empty() { labels.push("is a prefix"); }
            if model[j].len() > model[i].len() { labels.push("longer than the slice"); }
        }
        Op::Merge(i, j, joiner) => {
            let (i, j) = (sel!(i), sel!(j));
            let other = real[j].clone();
            let om = model[j].clone();
            let jn = joiner.clone();
            must("slice/merge", || real[i].merge(other, jn))?;
            if !om.is_empty() {
                if let Some(x) = joiner { model[i].extend(x.as_bytes()); }
                model[i].extend(om);
            }
            labels.push("merge");
        }
        Op::Sub(i, st, n) => {
            let i = sel!(i);
            let ok = st.checked_add(*n).map_or(false, |e| e <= model[i].len());
            let r = refused!(ok, "slice/as_sub_ref", format!("as_sub_ref({}, {}) of {} bytes", st, n, model[i].len()), || real[i].as_sub_ref(*st, *n).to_vec());
            if let Some(r) = r { ensure!(r == model[i][*st..st + n], "slice/as_sub_ref", "as_sub_ref({}, {}) of {} is {}", st, n, hex(&model[i]), hex(&r)); labels.push("sub-range"); }
        }
        Op::Index(i, k, a, b) => {
            let i = sel!(i);
            let m = &model[i];
            match k {
                0 => { let r = refused!(*a < m.len(), "slice/index", format!("[{}] of {} bytes", a, m.len()), || real[i][*a]); if let Some(r) = r { ensure!(r == m[*a], "slice/index", "[{}] is {}", a, r); } }
                1 => { let r = refused!(a <= b && *b <= m.len(), "slice/index", format!("[{}..{}] of {} bytes", a, b, m.len()), || real[i][*a..*b].to_vec()); if let Some(r) = r { ensure!(r == m[*a..*b], "slice/index", "[{}..{}] of {} is {}", a, b, hex(m), hex(&r)); labels.push("sub-range"); } }
                2 => { let r = refused!(*a <= m.len(), "slice/index", format!("[{}..] of {} bytes", a, m.len()), || real[i][*a..].to_vec()); if let Some(r) = r { ensure!(r == m[*a..], "slice/index", "[{}..] of {} is {}", a, hex(m), hex(&r)); labels.push("sub-range"); } }
                _ => { let r = refused!(*b <= m.len(), "slice/index", format!("[..{}] of {} bytes", b, m.len()), || real[i][..*b].to_vec()); if let Some(r) = r { ensure!(r == m[..*b], "slice/index", "[..{}] of {} is {}", b, hex(m), hex(&r)); labels.push("sub-range"); } }
            }
        }
        Op::IndexMut(i, k, a, b, v) => {
            let i = sel!(i);
            let n = model[i].len();
            let (ok, lo, hi) = match k { 0 => (a <= b && *b <= n, *a, *b), 1 => (*a <= n, *a, n), _ => (*b <= n, 0, *b) };
            let r = refused!(ok, "slice/index_mut", format!("mutable range {} {}..{} of {} bytes", k, a, b, n), || {
                let x: &mut [u8] = match k { 0 => &mut real[i][*a..*b], 1 => &mut real[i][*a..], _ => &mut real[i][..*b] };
                for y in x.iter_mut() { *y = *v; }
                x.len()
            });
            if let Some(l) = r { ensure!(l == hi - lo, "slice/index_mut", "mutable range {}..{} of {} bytes has {} bytes", lo, hi, n, l); for y in &mut model[i][lo..hi] { *y = *v; } labels.push("mutated a range"); }
        }
        Op::Compare(i, j) => {
            let (i, j) = (sel!(i), sel!(j));
            ensure!(must("slice/cmp", || real[i].partial_cmp(&real[j]))? == Some(model[i].cmp(&model[j])), "slice/cmp", "order of {} and {}", hex(&model[i]), hex(&model[j]));
            ensure!(must("slice/cmp", || real[i] == real[j])? == (model[i] == model[j]), "slice/cmp", "equality of {} and {}", hex(&model[i]), hex(&model[j]));
        }
        Op::Queries(i) => {
            let i = sel!(i);
            let m = &model[i];
            ensure!(must("slice/size", || real[i].size())? == m.len() && must("slice/len", || real[i].len())? == m.len(), "slice/size", "size of {} is {}", hex(m), real[i].size());
            ensure!(must("slice/empty", || real[i].empty())? == m.is_empty(), "slice/empty", "empty() of {} bytes", m.len());
            ensure!(must("slice/as_ref", || AsRef::<[u8]>::as_ref(&real[i]).to_vec())? == *m, "slice/as_ref", "as_ref of {}", hex(m));
            ensure!(must("slice/borrow", || real[i].borrow_data().as_bytes().to_vec())? == *m, "slice/borrow_data", "borrow_data of {}", hex(m));
            match std::str::from_utf8(m) {
                Ok(t) => {
                    ensure!(must("slice/as_str", || real[i].as_str() == t)?, "slice/as_str", "as_str of {:?}", t);
                    ensure!(must("slice/display", || format!("{}", real[i]))? == t, "slice/display", "display of {:?}", t);
                    labels.push("text");
                }
                Err(_) => ensure!(guard(|| real[i].as_str().len()).is_err(), "slice/as_str", "as_str of bytes that are no text succeeded: {}", hex(m)),
            }
        }
        Op::Into(i, k) => {
            let i = sel!(i);
            let r = real.swap_remove(i);
            let m = model.swap_remove(i);
            let b = must("slice/into", || if *k == 0 { Vec::<u8>::from(r) } else { String::from(r).into_bytes() })?;
            ensure!(b == m, "slice/into", "converted {} to {}", hex(&m), hex(&b));
        }
        Op::Drop(i) => { let i = sel!(i); let r = real.swap_remove(i); model.swap_remove(i); must("slice/drop", || drop(r))?; }
        Op::DerefMut(i, p, v) => {
            let i = sel!(i);
            if *p < model[i].len() { must("slice/deref_mut", || { let x: &mut [u8] = &mut real[i]; x[*p] = *v; })?; model[i][*p] = *v; }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C14", rule: "at least two different keys in the family", assumptions: &[],
            subs: vec![Sub { name: "order", quick: 80000, thorough: 5000000, run: order }, Sub { name: "long_order", quick: 4000, thorough: 300000, run: long_order }] },
        Prop { id: "C15", rule: "separator, long_separator: start and limit differ; successor: a non-empty key", assumptions: &["keys of arbitrary bytes travel as String through the library's own unchecked conversion"],
            subs: vec![Sub { name: "separator", quick: 150000, thorough: 10000000, run: separator }, Sub { name: "long_separator", quick: 6000, thorough: 400000, run: long_separator }, Sub { name: "successor", quick: 80000, thorough: 5000000, run: successor }] },
        Prop { id: "C16", rule: "slice_ops, big_slices: at least three operations; near_equal: at least two bytes", assumptions: &[],
            subs: vec![Sub { name: "slice_ops", quick: 60000, thorough: 4000000, run: slice_ops }, Sub { name: "big_slices", quick: 600, thorough: 30000, run: big_slices }, Sub { name: "near_equal", quick: 1500, thorough: 80000, run: near_equal }] },
    ]
}
