//! C25-C28, C30: linked list, histogram, random numbers, status values, mutex.
use super::bytes::leak_free;
use crate::engine::*;
use crate::ensure;
use level_db_rust::util::histogram::Histogram;
use level_db_rust::util::linked_list::{LinkedList, LinkedListBuilder};
use level_db_rust::util::mutex_lock::{Lock, MutexLock};
use level_db_rust::util::random::Random;
use level_db_rust::util::slice::Slice;
use level_db_rust::util::status::{LevelError, Status};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};
use std::sync::{Mutex, TryLockError};

// ---------------------------------------------------------------- C25

#[derive(Clone, Debug)]
enum LOp { Add, Push, First, Last, At(usize), Get(usize), Set(usize), Poke(usize), Sweep }

#[derive(Debug)]
struct Elem<'a> { id: usize, extra: u64, check: Box<usize>, drops: &'a [Cell<u32>] }
impl<'a> Drop for Elem<'a> { fn drop(&mut self) { let d = &self.drops[self.id]; d.set(d.get() + 1); } }
impl<'a> Elem<'a> { fn new(id: usize, drops: &'a [Cell<u32>]) -> Elem<'a> { Elem { id, extra: 0, check: Box::new(id ^ 0x5555), drops } } }

fn position(s: &mut Src) -> usize {
    match s.weighted(&[6, 2, 1, 1]) {
        0 => s.idx(100),        // reduced to a position in the list
        1 => 1000 + s.idx(3),   // 1000 + d: d-1 from the length
        2 => 2000 + s.idx(2000),
        _ => usize::MAX - s.idx(3),
    }
}
fn resolve(p: usize, len: usize) -> usize {
    match p { 0..=999 => if len == 0 { p % 2 } else { p % len }, 1000..=1999 => (len + p - 1000).saturating_sub(1), 10_000_000..=99_999_999 => (p - 10_000_000) % (len + 1), _ => p }
}

fn list_ops(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 60);
    let bulk = if s.chance(1, 4) { s.urange(1, 100) } else { 0 };
    let style = s.idx(3);
    let ops: Vec<LOp> = (0..n).map(|_| {
        let w = [[3, 3, 2, 2, 6, 4, 2, 1, 1], [0, 3, 0, 0, 10, 5, 1, 1, 1], [4, 0, 0, 4, 1, 2, 2, 2, 1]][style];
        match s.weighted(&w) {
            0 => LOp::Add, 1 => LOp::Push, 2 => LOp::First, 3 => LOp::Last,
            4 => LOp::At(position(s)), 5 => LOp::Get(position(s)), 6 => LOp::Set(position(s)), 7 => LOp::Poke(position(s)),
            _ => LOp::Sweep,
        }
    }).collect();
    cx.start(s, || format!("{} elements added, then {:?}", bulk, ops));
    list_of(cx, bulk, ops)
}
/// Thousands of elements, from one seed.
fn long_list(s: &mut Src, cx: &mut Cx) -> Res {
    let bulk = match s.below(3) { 0 => s.urange(100, 3000), 1 => (1usize << s.urange(6, 12)) + s.idx(5) - 2, _ => 0 };
    let n = s.urange(50, 400);
    let w = *s.pick(&[[3u64, 3, 2, 2, 8, 6, 3, 2], [0, 1, 0, 0, 20, 3, 1, 1], [8, 0, 0, 8, 1, 2, 2, 2], [0, 8, 8, 0, 1, 2, 2, 2]]);
    let mut x = s.u64();
    let ops: Vec<LOp> = (0..n).map(|_| {
        let v = splitmix(&mut x);
        let p = match v % 16 { 0 => 1000 + (v >> 8) as usize % 3, 1 => usize::MAX - (v >> 8) as usize % 3, 2 => 1 << ((v >> 8) % 64), _ => 10_000_000 + (v >> 8) as usize % 80_000_000 };
        let mut k = (v >> 40) % w.iter().sum::<u64>();
        for (i, y) in w.iter().enumerate() { if k < *y { return match i { 0 => LOp::Add, 1 => LOp::Push, 2 => LOp::First, 3 => LOp::Last, 4 => LOp::At(p), 5 => LOp::Get(p), 6 => LOp::Set(p), _ => LOp::Poke(p) }; } k -= y; }
        LOp::Sweep
    }).collect();
    cx.start(s, || clip(format!("{} elements added, then {:?}", bulk, ops), 1200));
    cx.evals((bulk + n - 1) as u64);
    list_of(cx, bulk, ops)
}
fn list_of(cx: &mut Cx, bulk: usize, ops: Vec<LOp>) -> Res {
    let n = ops.len();
    cx.nontrivial_if(ops.iter().filter(|o| matches!(o, LOp::Add | LOp::Push | LOp::First | LOp::Last | LOp::At(_))).count() + bulk >= 3);
    let total = n + bulk + 1;
    let drops: Vec<Cell<u32>> = vec![Cell::new(0); total];
    let (mut outside, mut between) = (false, false);
    leak_free("list", || {
        let mut model: Vec<(usize, u64)> = Vec::new();
        let mut list: LinkedList<Elem> = must("new", LinkedList::new)?;
        let mut next = 0;
        let mut expect_gone: Vec<usize> = vec![];
        for k in 0..bulk { must("add", || list.add(Elem::new(next, &drops)))?; model.push((next, 0)); next += 1; if k == 0 { ensure!(list.length() == 1, "list/length", "length {} after one addition", list.length()); } }
        let read = |list: &LinkedList<Elem>, model: &[(usize, u64)], p: usize| -> Res {
            match must("get", || list.get(p))? {
                Ok(Some(e)) => {
                    ensure!(p < model.len(), "list/outside", "get({}) of a list of {} returned an element", p, model.len());
                    ensure!(e.id < total && *e.check == e.id ^ 0x5555 && drops[e.id].get() == 0, "list/element", "element {} is not intact", p);
                    ensure!((e.id, e.extra) == model[p], "list/element", "element {} of {} is {:?}, expected {:?}", p, model.len(), (e.id, e.extra), model[p]);
                }
                Ok(None) => return fail("list/none", format!("get({}) of a list of {} returned Ok(None)", p, model.len())),
                Err(_) => ensure!(p >= model.len(), "list/refused", "get({}) of a list of {} was refused", p, model.len()),
            }
            Ok(())
        };
        for op in &ops {
            match op {
                LOp::Add => { must("add", || list.add(Elem::new(next, &drops)))?; model.push((next, 0)); next += 1; }
                LOp::Push => { must("push", || list.push(Elem::new(next, &drops)))?; model.insert(0, (next, 0)); next += 1; }
                LOp::First => {
                    ensure!(matches!(must("add_first", || list.add_first(Elem::new(next, &drops)))?, Ok(true)), "list/add", "add_first did not succeed");
                    model.insert(0, (next, 0)); next += 1;
                }
                LOp::Last => {
                    ensure!(matches!(must("add_last", || list.add_last(Elem::new(next, &drops)))?, Ok(true)), "list/add", "add_last did not succeed");
                    model.push((next, 0)); next += 1;
                }
                LOp::At(p) => {
                    let p = resolve(*p, model.len());
                    let r = must("add_by_position", || list.add_by_position(p, Elem::new(next, &drops)))?;
                    if p <= model.len() {
                        ensure!(matches!(r, Ok(true)), "list/add", "add_by_position({}) in a list of {} did not succeed", p, model.len());
                        between |= p > 0 && p < model.len();
                        model.insert(p, (next, 0));
                    } else {
                        ensure!(r.is_err(), "list/outside", "add_by_position({}) in a list of {} was not refused", p, model.len());
                        outside = true;
                        expect_gone.push(next);
                    }
                    next += 1;
                }
                LOp::Get(p) => { let p = resolve(*p, model.len()); outside |= p >= model.len(); read(&list, &model, p)? }
                LOp::Set(p) | LOp::Poke(p) => {
                    let whole = matches!(op, LOp::Set(_));
                    let p = resolve(*p, model.len());
                    match must("get_mut", || list.get_mut(p))? {
                        Ok(Some(e)) => {
                            ensure!(p < model.len(), "list/outside", "get_mut({}) of a list of {} returned an element", p, model.len());
                            ensure!((e.id, e.extra) == model[p], "list/element", "get_mut({}) of {} is {:?}, expected {:?}", p, model.len(), (e.id, e.extra), model[p]);
                            if whole { expect_gone.push(e.id); *e = Elem::new(next, &drops); model[p] = (next, 0); next += 1; }
                            else { e.extra += 1; model[p].1 += 1; }
                        }
                        Ok(None) => return fail("list/none", format!("get_mut({}) of a list of {} returned Ok(None)", p, model.len())),
                        Err(_) => { outside = true; ensure!(p >= model.len(), "list/refused", "get_mut({}) of a list of {} was refused", p, model.len()) }
                    }
                }
                LOp::Sweep => for p in 0..=model.len() { read(&list, &model, p)? },
            }
            let l = list.length();
            ensure!(l == model.len(), "list/length", "length {} with {} elements after {:?}", l, model.len(), op);
        }
        for p in 0..model.len() + 2 { read(&list, &model, p)? }
        for (id, _) in &model { ensure!(drops[*id].get() == 0, "list/released", "element {} was released while it is in the list", id); }
        for id in &expect_gone { ensure!(drops[*id].get() == 1, "list/released", "the refused or replaced element {} was released {} times", id, drops[*id].get()); }
        must("drop", || drop(list))?;
        for id in 0..next { ensure!(drops[id].get() == 1, "list/released", "element {} was released {} times in the end", id, drops[id].get()); }
        Ok(())
    })?;
    cx.label_if(outside, "a position outside the list");
    cx.label_if(between, "an insertion between two elements");
    cx.label_if(bulk > 50, "more than 50 elements");
    cx.label_if(bulk > 1000, "more than 1000 elements");
    Ok(())
}

/// More elements than 16 bits count, or than fit on a stack, added at either end; some positions are read, written and inserted at.
fn huge_list(s: &mut Src, cx: &mut Cx) -> Res {
    let n = if s.chance(1, 3) { s.urange(200_000, 1_000_000) } else { 65_530 + s.idx(6000) };
    let seed = s.u64();
    let style = s.idx(4);
    let probes = s.urange(4, 24);
    cx.start(s, || format!("{} elements added {}, {} positions, seed {:#x}", n, ["by add", "at the front", "at the back", "at either end"][style], probes, seed));
    cx.nontrivial = true;
    cx.evals(n as u64 - 1);
    let mut x = seed;
    let mut model: std::collections::VecDeque<u64> = Default::default();
    leak_free("list", || {
        let mut list: LinkedList<u64> = must("new", LinkedList::new)?;
        for i in 0..n as u64 {
            let how = if style == 3 { (splitmix(&mut x) % 3) as usize } else { style };
            match how { 0 => { must("add", || list.add(i))?; model.push_back(i) }
                1 => { let r = must("add_first", || list.add_first(i))?; ensure!(r.is_ok(), "list/add", "add_first did not succeed"); model.push_front(i) }
                _ => { let r = must("add_last", || list.add_last(i))?; ensure!(r.is_ok(), "list/add", "add_last did not succeed"); model.push_back(i) } }
            if i % 4096 == 4095 || i + 1 == n as u64 || i > 65_530 && i < 65_540 { ensure!(list.length() == i as usize + 1, "list/length", "length {} after {} additions", list.length(), i + 1); }
        }
        for k in 0..probes {
            let r = splitmix(&mut x);
            let len = model.len();
            let p = match r % 8 { 0 => 0, 1 => len - 1, 2 => len, 3 => 65_535, 4 => 65_536 + (r >> 8) as usize % 3, 5 => len / 2 + (r >> 8) as usize % 3, 6 => len + 65_536 * (1 + (r >> 8) as usize % 3) - (r >> 12) as usize % 10, _ => (r >> 8) as usize % len };
            let v = 1 << 40 | k as u64;
            match (r >> 4) % 3 {
                0 => {
                    let ok = must("add_by_position", || list.add_by_position(p, v))?.is_ok();
                    ensure!(ok == (p <= len), "list/outside", "adding at position {} of a list of {} {}", p, len, if ok { "succeeds" } else { "is refused" });
                    if ok { model.insert(p, v); }
                }
                1 => {
                    let ok = match must("get_mut", || list.get_mut(p))? { Ok(Some(e)) => { *e = v; true } _ => false };
                    ensure!(ok == (p < len), "list/outside", "writing position {} of a list of {} {}", p, len, if ok { "succeeds" } else { "is refused" });
                    if ok { model[p] = v; }
                }
                _ => {}
            }
            for q in [p, p.wrapping_sub(1), p + 1] {
                let got = match must("get", || list.get(q))? { Ok(Some(v)) => Some(*v), _ => None };
                ensure!(got == model.get(q).copied(), "list/element", "position {} of {} holds {:?}, expected {:?}", q, model.len(), got, model.get(q));
            }
            ensure!(list.length() == model.len(), "list/length", "length {} with {} elements", list.length(), model.len());
        }
        must("drop", || drop(list))?;
        model = Default::default();
        Ok(())
    })
}

// ---------------------------------------------------------------- C26

fn limits() -> &'static [f64] {
    static L: std::sync::OnceLock<Vec<f64>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let mut v: Vec<f64> = (1..=10).map(|x| x as f64).collect();
        let mut scale: u64 = 10;
        while scale <= 1_000_000_000 {
            for m in [12u64, 14, 16, 18, 20, 25, 30, 35, 40, 45, 50, 60, 70, 80, 90, 100] { v.push((m * scale / 10) as f64); }
            scale *= 10;
        }
        while *v.last().unwrap() > 9e9 { v.pop(); }
        v.push(1e200);
        v
    })
}
fn bucket_of(x: f64) -> usize { let l = limits(); l.iter().position(|b| x < *b).unwrap_or(l.len() - 1) }

#[derive(Debug)]
struct Report { count: f64, mean: f64, sd: f64, min: f64, median: f64, max: f64, lines: Vec<[f64; 5]> }

fn parse(text: &str) -> Option<Report> {
    let mut lines = text.lines();
    let num = |l: &str, key: &str| -> Option<f64> { let i = l.find(key)? + key.len(); l[i..].split_whitespace().next()?.parse().ok() };
    let a = lines.next()?;
    let b = lines.next()?;
    let mut r = Report { count: num(a, "Count:")?, mean: num(a, "Average:")?, sd: num(a, "StdDev:")?, min: num(b, "Min:")?, median: num(b, "Median:")?, max: num(b, "Max:")?, lines: vec![] };
    if !lines.next()?.starts_with("---") { return None; }
    for l in lines {
        let t: Vec<f64> = l.split(|c: char| c.is_whitespace() || "[,)%".contains(c)).filter(|x| !x.is_empty()).take(5).map(|x| x.parse().ok()).collect::<Option<_>>()?;
        r.lines.push(t.try_into().ok()?);
    }
    Some(r)
}

fn near(a: f64, b: f64, abs: f64, rel: f64) -> bool { (a - b).abs() <= abs + rel * b.abs() }

fn check_report(what: &str, h: &Histogram, xs: &[f64]) -> Res {
    let ws: Vec<(f64, f64)> = xs.iter().map(|x| (*x, 1.0)).collect();
    check_weighted(what, h, &ws, xs.len() as f64)
}
/// Samples with how often each was recorded; rounds: how many additions went into a sum, at most.
fn check_weighted(what: &str, h: &Histogram, xs: &[(f64, f64)], rounds: f64) -> Res {
    let text = must("display", || format!("{}", h))?;
    if xs.is_empty() {
        let empty = must("display", || format!("{}", Histogram::default()))?;
        ensure!(text == empty, "histogram/empty", "{}: without samples the report is {:?}, that of a new histogram {:?}", what, text, empty);
        return Ok(());
    }
    let Some(r) = parse(&text) else { return fail("histogram/report", format!("{}: unreadable report {:?}", what, text)) };
    let n: f64 = xs.iter().map(|x| x.1).sum();
    let ctx = || format!("{} of {} samples {:?}: {}", what, n, &xs[..xs.len().min(12)], clip(text.clone(), 600));
    ensure!(r.count == n, "histogram/count", "count {}, {}", r.count, ctx());
    let min = xs.iter().map(|x| x.0).fold(f64::INFINITY, f64::min);
    let max = xs.iter().map(|x| x.0).fold(f64::NEG_INFINITY, f64::max);
    ensure!(near(r.min, min, 1e-4, 1e-14), "histogram/min", "minimum {} instead of {}, {}", r.min, min, ctx());
    ensure!(near(r.max, max, 1e-4, 1e-14), "histogram/max", "maximum {} instead of {}, {}", r.max, max, ctx());
    let mean = xs.iter().map(|x| x.0 * x.1).sum::<f64>() / n;
    ensure!(near(r.mean, mean, 1.1e-4, 1e-11f64.max(rounds * 1e-15)), "histogram/mean", "mean {} instead of {}, {}", r.mean, mean, ctx());
    let var = xs.iter().map(|x| x.1 * (x.0 - mean) * (x.0 - mean)).sum::<f64>() / n;
    // the usual one-pass formula loses digits relative to the mean square
    let d = 1e-10f64.max(rounds * 4e-15) * xs.iter().map(|x| x.1 * x.0 * x.0).sum::<f64>() / n;
    let (lo, hi) = ((var - d).max(0.0).sqrt() - 0.006, (var + d).sqrt() + 0.006);
    ensure!(r.sd >= lo && r.sd <= hi, "histogram/deviation", "standard deviation {} instead of {}, {}", r.sd, var.sqrt(), ctx());
    // buckets
    let mut count = vec![0f64; limits().len()];
    for x in xs { count[bucket_of(x.0)] += x.1; }
    let mut cum = 0.0;
    let mut it = r.lines.iter();
    let mut median = None;
    for (i, c) in count.iter().enumerate() {
        if *c == 0.0 { continue; }
        let (l, u) = (if i == 0 { 0.0 } else { limits()[i - 1] }, limits()[i]);
        if cum + *c as f64 >= n / 2.0 && median.is_none() { median = Some((l + (u - l) * ((n / 2.0 - cum) / *c as f64)).max(min).min(max)); }
        cum += *c as f64;
        let Some(line) = it.next() else { return fail("histogram/bucket", format!("no line for the bucket [{}, {}), {}", l, u, ctx())) };
        ensure!(line[0] == l && line[1] == u && line[2] == *c as f64, "histogram/bucket", "line {:?} instead of [{}, {}) with {} samples, {}", line, l, u, c, ctx());
        ensure!(near(line[3], 100.0 * *c as f64 / n, 6e-4, 0.0), "histogram/percent", "{}% for {} of {}, {}", line[3], c, n, ctx());
        ensure!(near(line[4], 100.0 * cum / n, 6e-4, 0.0), "histogram/percent", "cumulative {}% for {} of {}, {}", line[4], cum, n, ctx());
    }
    ensure!(it.next().is_none(), "histogram/bucket", "a line for an empty bucket, {}", ctx());
    ensure!(r.median >= min - 1e-4 - min * 1e-14 && r.median <= max + 1e-4 + max * 1e-14, "histogram/median", "median {} outside the samples' range [{}, {}], {}", r.median, min, max, ctx());
    let m = median.unwrap_or(max);
    ensure!(near(r.median, m, 1.1e-4, 1e-9), "histogram/median", "median {} instead of {} by interpolation, {}", r.median, m, ctx());
    Ok(())
}

#[derive(Clone, Debug)]
enum HOp { Add(usize, f64), Merge(usize, usize), Clear(usize), Check(usize) }

fn sample(s: &mut Src, kind: u64, l: usize) -> f64 {
    match kind {
        0 => { let b = limits()[s.idx(limits().len() - 1)]; match s.below(4) { 0 => b, 1 => b - 1.0, 2 => f64::from_bits(b.to_bits() - 1), _ => b + 0.5 } }
        1 => s.below(30) as f64,
        2 => s.below(1 << 20) as f64,
        3 => (s.below(1 << 30) as f64) / 1024.0,
        4 => { let k = s.idx(50); (s.u64() >> (14 + k)) as f64 }
        7 => { let e = s.urange(10, 100) as i32; (1 + s.below(999)) as f64 * 10f64.powi(e) }
        5 => 1e6 + s.below(3) as f64 / 16.0,
        _ => { let b = limits()[l]; if s.bool() { b } else { f64::from_bits(b.to_bits() - 1) } }
    }
}

fn histogram(s: &mut Src, cx: &mut Cx) -> Res {
    let nh = s.urange(1, 3);
    let kind = s.below(8);
    let l = s.idx(limits().len() - 1);
    let many = s.chance(1, 20);
    let n = if many { s.urange(100, 1500) } else { s.urange(1, 40) };
    let ops: Vec<HOp> = (0..n).map(|_| {
        let h = s.idx(nh);
        let w = if many { [400, 3, 1, 1] } else { [16, 2, 1, 2] };
        match s.weighted(&w) {
            0 => { let k = if s.chance(1, 8) { s.below(8) } else { kind }; HOp::Add(h, sample(s, k, l)) }
            1 => { let g = s.idx(nh); HOp::Merge(h, g) }
            2 => HOp::Clear(h),
            _ => HOp::Check(h),
        }
    }).collect();
    cx.start(s, || clip(format!("{:?}", ops), 1200));
    histogram_of(cx, nh, ops, many, 4000)
}
/// Tens of thousands of samples from one seed; merges double the counts further.
fn many_samples(s: &mut Src, cx: &mut Cx) -> Res {
    let nh = s.urange(1, 3);
    let kind = s.below(5);
    let n = s.urange(1000, 30000);
    let heavy = s.chance(1, 3);
    let mut x = s.u64();
    let one = s.below(1 << 30) as f64;
    let ops: Vec<HOp> = (0..n).map(|i| {
        let v = splitmix(&mut x);
        let h = (v >> 60) as usize % nh;
        if v % 4001 == 1 { return HOp::Merge(h, (h + 1) % nh); }
        if v % 9001 == 2 { return HOp::Check(h); }
        if v % 30011 == 3 { return HOp::Clear(h); }
        let y = v >> 8;
        HOp::Add(h, if heavy && i % 50 != 0 { one } else { match kind { 0 => (y % 1000) as f64, 1 => (y >> (y % 40)) as f64 / 64.0, 2 => limits()[y as usize % (limits().len() - 1)], 3 => (y % (1 << 50)) as f64, _ => one } })
    }).collect();
    cx.start(s, || clip(format!("{:?}", ops), 1200));
    cx.evals(n as u64 - 1);
    histogram_of(cx, nh, ops, true, 400_000)
}
fn histogram_of(cx: &mut Cx, nh: usize, ops: Vec<HOp>, many: bool, cap: usize) -> Res {
    let mut hs: Vec<Histogram> = (0..nh).map(|_| Histogram::default()).collect();
    let mut model: Vec<Vec<f64>> = vec![vec![]; nh];
    let mut merged = vec![false; nh];
    let mut did_merge = false;
    for op in &ops {
        match op {
            HOp::Add(h, x) => { must("add", || hs[*h].add(*x))?; model[*h].push(*x); }
            HOp::Merge(h, g) => {
                if h == g || model[*h].len() + model[*g].len() > cap { continue; }
                let before = must("display", || format!("{}", hs[*g]))?;
                let (a, b) = if h < g { let (x, y) = hs.split_at_mut(*g); (&mut x[*h], &y[0]) } else { let (x, y) = hs.split_at_mut(*h); (&mut y[0], &x[*g]) };
                must("merge", || a.merge(b))?;
                ensure!(before == format!("{}", hs[*g]), "histogram/merge", "merging changed the histogram merged from");
                did_merge |= !model[*h].is_empty() && !model[*g].is_empty();
                merged[*h] = true;
                let t = model[*g].clone();
                model[*h].extend(t);
            }
            HOp::Clear(h) => { must("clear", || hs[*h].clear())?; model[*h].clear(); merged[*h] = false; check_report("cleared histogram", &hs[*h], &[])?; }
            HOp::Check(h) => check_report("histogram", &hs[*h], &model[*h])?,
        }
    }
    for h in 0..nh {
        check_report(if merged[h] { "merged histogram" } else { "histogram" }, &hs[h], &model[h])?;
        // with sums that are exact, the order of additions makes no difference at all
        if merged[h] && model[h].iter().all(|x| x.fract() == 0.0) && model[h].iter().map(|x| x * x).sum::<f64>() < 9e15 {
            let mut one = Histogram::default();
            for x in &model[h] { one.add(*x); }
            let (a, b) = (format!("{}", hs[h]), format!("{}", one));
            ensure!(a == b, "histogram/merge", "the merged histogram reports {:?}, one of all samples {:?}", clip(a.clone(), 500), clip(b.clone(), 500));
            cx.label("merge compared with one histogram of all samples");
        }
    }
    cx.nontrivial_if(model.iter().any(|m| m.len() >= 2));
    cx.label_if(did_merge, "merge of two non-empty histograms");
    cx.label_if(model.iter().flatten().any(|x| limits().contains(x)), "a sample at a bucket limit");
    cx.label_if(many, "hundreds of samples");
    cx.label_if(model.iter().flatten().any(|x| *x > 1e10), "a sample beyond the last but one limit");
    cx.label_if(model.iter().any(|m| m.len() > 65536), "more than 65536 samples in one histogram");
    Ok(())
}

/// Histograms merged into each other over and over: the counts grow past 32 bits while the samples stay few.
fn doubling(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 12);
    let kind = s.below(6);
    let l = s.idx(limits().len() - 1);
    let first: Vec<(usize, f64)> = (0..n).map(|_| (s.idx(2), sample(s, kind, l).min(1e12).floor())).collect();
    let rounds = s.urange(1, 60);
    let extra = s.urange(0, 3);
    let late: Vec<(usize, f64)> = (0..extra).map(|_| (s.urange(0, rounds - 1), sample(s, 1, l))).collect();
    let mut turns: Vec<bool> = (0..rounds).map(|_| s.bool()).collect();
    if s.bool() { for (i, t) in turns.iter_mut().enumerate() { *t = i % 2 == 0; } }
    cx.start(s, || format!("samples {:?}, then {} merges {:?}, samples in between {:?}", first, rounds, turns, late));
    let mut hs = [Histogram::default(), Histogram::default()];
    let mut model: [Vec<(f64, f64)>; 2] = [vec![], vec![]];
    let add = |hs: &mut [Histogram; 2], model: &mut [Vec<(f64, f64)>; 2], h: usize, x: f64| -> Res {
        must("add", || hs[h].add(x))?;
        match model[h].iter_mut().find(|y| y.0 == x) { Some(y) => y.1 += 1.0, None => model[h].push((x, 1.0)) }
        Ok(())
    };
    for (h, x) in &first { add(&mut hs, &mut model, *h, *x)?; }
    for (i, t) in turns.iter().enumerate() {
        for (at, x) in &late { if *at == i { add(&mut hs, &mut model, *t as usize, *x)?; } }
        // everything stays an exact integer in a double
        if model.iter().flatten().map(|x| x.1).sum::<f64>() > 4e15 { break; }
        let (a, b) = hs.split_at_mut(1);
        if *t { must("merge", || a[0].merge(&b[0]))?; } else { must("merge", || b[0].merge(&a[0]))?; }
        let (to, from) = (!*t as usize, *t as usize);
        for (x, w) in model[from].clone() { match model[to].iter_mut().find(|y| y.0 == x) { Some(y) => y.1 += w, None => model[to].push((x, w)) } }
    }
    for h in 0..2 { check_weighted("merged histogram", &hs[h], &model[h], 200.0)?; }
    let most = model.iter().map(|m| m.iter().map(|x| x.1).sum::<f64>()).fold(0.0, f64::max);
    cx.nontrivial_if(model.iter().any(|m| m.len() >= 2));
    cx.label_if(most > 65536.0, "over 65536 samples");
    cx.label_if(most > u32::MAX as f64, "over 2^32 samples");
    Ok(())
}

// ---------------------------------------------------------------- C27

#[derive(Clone, Debug)]
enum ROp { Next, Bool, Uniform(u32), OneIn(u32), Skewed(u32), Many(u32) }

const M31: u64 = 2147483647;

struct Lehmer(u64);
impl Lehmer {
    fn new(s: u32) -> Lehmer { let x = s as u64 & M31; Lehmer(if x == 0 || x == M31 { 1 } else { x }) }
    fn next(&mut self) -> u64 { self.0 = self.0 * 16807 % M31; self.0 }
}
/// What a 32-bit product makes of it (known finding random/next-32bit-product).
struct Narrow(u32);
impl Narrow {
    fn new(s: u32) -> Narrow { Narrow(if s == 0 || s == M31 as u32 { 1 } else { s }) }
    fn next(&mut self) -> u64 {
        let p = self.0.wrapping_mul(16807);
        self.0 = (p >> 31) + (p & M31 as u32);
        if self.0 > M31 as u32 { self.0 -= M31 as u32; }
        self.0 as u64
    }
}

fn random(s: &mut Src, cx: &mut Cx) -> Res {
    let seed = match s.weighted(&[3, 1, 1]) { 0 => s.u32(), 1 => s.edge32(), _ => *s.pick(&[0, 1, M31 as u32, M31 as u32 - 1, 1 << 31, u32::MAX, (1 << 31) + 1]) };
    let n = s.urange(1, 40);
    let ops: Vec<ROp> = (0..n).map(|_| match s.weighted(&[4, 2, 3, 2, 3, 1]) {
        0 => ROp::Next,
        1 => ROp::Bool,
        2 => ROp::Uniform(s.edge32().max(1)),
        3 => ROp::OneIn(if s.bool() { s.urange(1, 20) as u32 } else { s.edge32().max(1) }),
        4 => ROp::Skewed(s.below(32) as u32),
        _ => ROp::Many(s.urange(1, 300) as u32),
    }).collect();
    cx.start(s, || format!("seed {} {:?}", seed, ops));
    random_of(cx, seed, ops)
}
fn long_draws(s: &mut Src, cx: &mut Cx) -> Res {
    let seed = s.edge32();
    let n = s.urange(3, 60);
    let ops: Vec<ROp> = (0..n).map(|_| match s.below(3) { 0 => ROp::Many(s.urange(1000, 20000) as u32), 1 => ROp::Skewed(s.below(32) as u32), _ => ROp::Uniform(s.edge32().max(1)) }).collect();
    cx.start(s, || format!("seed {} {:?}", seed, ops));
    cx.evals(ops.iter().map(|o| if let ROp::Many(k) = o { *k as u64 } else { 1 }).sum());
    random_of(cx, seed, ops)
}
fn random_of(cx: &mut Cx, seed: u32, ops: Vec<ROp>) -> Res {
    cx.nontrivial = ops.len() >= 3;
    let mut r = must("new", || Random::new(seed))?;
    let (mut a, mut b) = (Lehmer::new(seed), Narrow::new(seed));
    // whether each model still explains everything seen
    let (mut ok_a, mut ok_b) = (true, true);
    let mut note = String::new();
    for op in &ops {
        let k = if let ROp::Many(k) = op { *k } else { 1 };
        for _ in 0..k {
            let got = match op {
                ROp::Next | ROp::Many(_) => must("next", || r.next())? as u64,
                ROp::Bool => must("next_bool", || r.next_bool())? as u64,
                ROp::Uniform(n) => { let v = must("uniform", || r.uniform(*n))?; ensure!(v < *n, "random/range", "uniform({}) returned {}", n, v); v as u64 }
                ROp::OneIn(n) => must("one_in", || r.one_in(*n))? as u64,
                ROp::Skewed(m) => { let v = must("skewed", || r.skewed(*m))?; ensure!((v as u64) < 1u64 << m, "random/range", "skewed({}) returned {}", m, v); v as u64 }
            };
            let want = |next: &mut dyn FnMut() -> u64| -> u64 {
                match op {
                    ROp::Next | ROp::Many(_) => next(),
                    ROp::Bool => (next() % 2 == 0) as u64,
                    ROp::Uniform(n) => next() % *n as u64,
                    ROp::OneIn(n) => (next() % *n as u64 == 0) as u64,
                    ROp::Skewed(m) => { let e = next() % (*m as u64 + 1); next() % (1u64 << e) }
                }
            };
            let (wa, wb) = (want(&mut || a.next()), want(&mut || b.next()));
            if ok_a && wa != got { ok_a = false; note = format!("seed {}: {:?} gave {}, the Lehmer sequence gives {}", seed, op, got, wa); }
            ok_b &= wb == got;
            if !ok_a && !ok_b { return fail("random/next", note); }
            if matches!(op, ROp::Next | ROp::Many(_)) && ok_a { ensure!(got >= 1 && got < M31, "random/range", "next() returned {}", got); }
        }
    }
    cx.evals(ops.len() as u64 - 1);
    if !ok_a { return fail("random/next-32bit-product", note); }
    Ok(())
}

// ---------------------------------------------------------------- C28

fn kind(i: usize) -> LevelError {
    use LevelError::*;
    match i { 0 => KOk, 1 => KNotFound, 2 => KCorruption, 3 => KNotSupported, 4 => KInvalidArgument, 5 => KIOError, 6 => KBadRecord, _ => KRepeatedRecord }
}
fn kind_index(e: &LevelError) -> usize {
    use LevelError::*;
    match e { KOk => 0, KNotFound => 1, KCorruption => 2, KNotSupported => 3, KInvalidArgument => 4, KIOError => 5, KBadRecord => 6, KRepeatedRecord => 7 }
}
use std::io::ErrorKind as EK;
const KINDS: [EK; 37] = [EK::NotFound, EK::PermissionDenied, EK::UnexpectedEof, EK::AlreadyExists, EK::InvalidData, EK::WriteZero, EK::Interrupted, EK::Other, EK::Unsupported, EK::OutOfMemory,
    EK::InvalidInput, EK::TimedOut, EK::WouldBlock, EK::BrokenPipe, EK::ConnectionRefused, EK::ConnectionReset, EK::ConnectionAborted, EK::NotConnected, EK::AddrInUse, EK::AddrNotAvailable,
    EK::HostUnreachable, EK::NetworkUnreachable, EK::NetworkDown, EK::NotADirectory, EK::IsADirectory, EK::DirectoryNotEmpty, EK::ReadOnlyFilesystem, EK::StaleNetworkFileHandle, EK::StorageFull,
    EK::NotSeekable, EK::QuotaExceeded, EK::FileTooLarge, EK::ResourceBusy, EK::ExecutableFileBusy, EK::Deadlock, EK::TooManyLinks, EK::ArgumentListTooLong];
const TEXTS: [&str; 6] = ["OK", "NotFound: ", "Corruption: ", "Not implemented: ", "Invalid argument: ", "IO error: "];

fn flags_status(s: &Status) -> [bool; 6] { [s.is_ok(), s.is_not_found(), s.is_corruption(), s.is_not_supported_error(), s.is_invalid_argument(), s.is_io_error()] }
fn flags_error(s: &LevelError) -> [bool; 6] { [s.is_ok(), s.is_not_found(), s.is_corruption(), s.is_not_supported_error(), s.is_invalid_argument(), s.is_io_error()] }

/// Build the same status again for every accessor that consumes it.
fn check_status(how: &str, k: usize, msg: &str, make: &dyn Fn() -> Status) -> Res {
    let want: Vec<bool> = (0..6).map(|i| i == k).collect();
    let st = must("make", make)?;
    let f = flags_status(&st);
    ensure!(f[..] == want[..], "status/kind", "{}: a status of kind {} answers {:?}", how, k, f);
    let m = must("get_msg", || st.get_msg())?;
    ensure!(m == msg, "status/message", "{}: message {:?} instead of {:?}", how, m, msg);
    let m2 = must("get_msg", || st.get_msg())?;
    ensure!(m2 == msg, "status/message", "{}: reading the message changed it to {:?}", how, m2);
    let e = must("get_error", || st.get_error())?;
    ensure!(kind_index(&e) == k && e.get_value() == k as i32, "status/kind", "{}: get_error is {:?} ({}) instead of kind {}", how, e, e.get_value(), k);
    let st = make();
    let b = must("into_msg", || st.into_msg())?;
    ensure!(&*b == msg.as_bytes(), "status/message", "{}: into_msg is {} instead of {:?}", how, hex(&b), msg);
    let st = make();
    let t = must("to_string", || st.to_string())?;
    if k == 0 { ensure!(t == "OK", "status/text", "{}: {:?} for success", how, t); }
    else if k < 6 { ensure!(t == format!("{}{}", TEXTS[k], msg), "status/text", "{}: {:?} for kind {} and message {:?}", how, t, k, msg); }
    else {
        ensure!(t.ends_with(msg), "status/text", "{}: {:?} does not end with the message {:?}", how, t, msg);
        let prefix = &t[..t.len() - msg.len()];
        let bare = must("to_string", || Status::wrapper(kind(k), Slice::default()).to_string())?;
        ensure!(prefix == bare && !prefix.is_empty() && !TEXTS.contains(&prefix), "status/text", "{}: {:?} for kind {} and message {:?}", how, t, k, msg);
    }
    Ok(())
}

fn joined(a: &str, b: &str) -> String { if b.is_empty() { a.to_string() } else { format!("{}: {}", a, b) } }

fn status(s: &mut Src, cx: &mut Cx) -> Res {
    let k = s.idx(8);
    let a = s.text(60);
    let b = if s.chance(1, 4) { String::new() } else { s.text(30) };
    let raw = s.blob(40);
    let code = match s.below(3) { 0 => s.below(12) as i32 - 2, 1 => s.u32() as i32, _ => (s.edge32() as i32).wrapping_neg() };
    let err = s.idx(KINDS.len());
    let poison = s.chance(1, 50);
    cx.start(s, || format!("kind {} messages {:?} {:?} code {} bytes {}", k, a, b, code, hex(&raw)));
    status_of(cx, k, a, b, raw, code, err, poison)
}
/// Messages up to and beyond 64 KiB, from one seed.
fn long_status(s: &mut Src, cx: &mut Cx) -> Res {
    let k = s.idx(8);
    let mut text = |s: &mut Src| -> String {
        let n = match s.below(3) { 0 => s.idx(400), 1 => (1usize << s.urange(7, 17)) + s.idx(5) - 2, _ => s.idx(200_000) };
        let wide = s.chance(1, 3);
        let mut x = s.u64();
        (0..n).map(|_| { let v = splitmix(&mut x); if wide && v % 7 == 0 { *['é', '中', '🦀', '\u{0}', '\n'].get((v >> 8) as usize % 5).unwrap() } else { (32 + (v >> 20) as u8 % 95) as char } }).collect()
    };
    let (a, b) = (text(s), if s.bool() { text(s) } else { s.text(30) });
    let raw = { let n = s.idx(150_000); s.bytes(n) };
    let code = s.u32() as i32;
    let err = s.idx(KINDS.len());
    cx.start(s, || format!("kind {} messages of {} and {} bytes, code {} bytes {}", k, a.len(), b.len(), code, hex(&raw)));
    cx.label_if(a.len() + b.len() > 65536, "longer than 64 KiB");
    status_of(cx, k, a, b, raw, code, err, false)
}
#[allow(clippy::too_many_arguments)]
fn status_of(cx: &mut Cx, k: usize, a: String, b: String, raw: Vec<u8>, code: i32, err: usize, poison: bool) -> Res {
    cx.nontrivial_if(k > 0 && !a.is_empty());
    let plain = if k == 0 { String::new() } else { a.clone() };
    check_status("wrapper", k, &plain, &|| Status::wrapper(kind(k), Slice::from(a.as_str())))?;
    check_status("wrapper of an owned string", k, &plain, &|| Status::wrapper(kind(k), Slice::from(a.clone())))?;
    check_status("wrapper_str", k, &plain, &|| Status::wrapper_str(kind(k), &a))?;
    let j = joined(&a, &b);
    if k > 0 { check_status("wrappers", k, &j, &|| Status::wrappers(kind(k), Slice::from(a.as_str()), Slice::from(b.as_str())))?; }
    else { ensure!(Status::wrappers(kind(0), Slice::from(a.as_str()), Slice::from(b.as_str())).is_ok(), "status/kind", "wrappers of success is not ok"); }
    let two = || (Slice::from(a.as_str()), Slice::from(b.as_str()));
    match k {
        0 => { check_status("ok", 0, "", &LevelError::ok)?; check_status("default", 0, "", &Status::default)?; }
        1 => check_status("not_found", 1, &j, &|| { let (x, y) = two(); LevelError::not_found(x, y) })?,
        2 => { check_status("corruption", 2, &j, &|| { let (x, y) = two(); LevelError::corruption(x, y) })?; check_status("corruption_string", 2, &j, &|| LevelError::corruption_string(&a, &b))? }
        3 => check_status("not_supported", 3, &j, &|| { let (x, y) = two(); LevelError::not_supported(x, y) })?,
        4 => check_status("invalid_argument", 4, &j, &|| { let (x, y) = two(); LevelError::invalid_argument(x, y) })?,
        5 => check_status("io_error", 5, &j, &|| { let (x, y) = two(); LevelError::io_error(x, y) })?,
        7 => check_status("repeated_record", 7, &a, &|| LevelError::repeated_record(Slice::from(a.as_str())))?,
        _ => {}
    }
    // messages are bytes
    if k > 0 {
        let m = must("into_msg", || Status::wrapper(kind(k), Slice::from_buf(&raw)).into_msg())?;
        ensure!(&*m == &raw[..], "status/message", "into_msg is {} instead of {}", hex(&m), hex(&raw));
    }
    // kinds and codes
    let e = kind(k);
    let f = flags_error(&e);
    ensure!((0..6).all(|i| f[i] == (i == k)) && e.is_repeated_record() == (k == 7), "status/kind", "kind {} answers {:?} and {}", k, f, e.is_repeated_record());
    ensure!(e.get_value() == k as i32, "status/code", "kind {} has code {}", k, e.get_value());
    let shown = must("display", || format!("{}", e))?;
    if k < 6 { ensure!(shown == TEXTS[k], "status/text", "kind {} is shown as {:?}", k, shown); }
    else { ensure!(!shown.is_empty() && !TEXTS.contains(&shown.as_str()) && shown != format!("{}", kind(13 - k)), "status/text", "kind {} is shown as {:?}", k, shown); }
    for c in [code, k as i32] {
        match must("try_from", || LevelError::try_from(c))? {
            Ok(e) => ensure!((0..8).contains(&c) && kind_index(&e) == c as usize, "status/code", "code {} becomes {:?}", c, e),
            Err(m) => ensure!(!(0..8).contains(&c), "status/code", "code {} is refused: {}", c, m),
        }
    }
    // conversions
    let ek = KINDS[err];
    check_status("io::Error", 5, &a, &|| Status::from(std::io::Error::new(ek, a.clone())))?;
    let os = std::io::Error::from_raw_os_error(err as i32 + 1).to_string();
    check_status("io::Error from the system", 5, &os, &|| Status::from(std::io::Error::from_raw_os_error(err as i32 + 1)))?;
    check_status("io::Error without message", 5, &std::io::Error::from(ek).to_string(), &|| Status::from(std::io::Error::from(ek)))?;
    if poison {
        let m = Mutex::new(1);
        let _ = guard(|| { let _g = m.lock(); panic!("poison") });
        let st = match m.lock() { Err(e) => must("from", || Status::from(e))?, Ok(_) => return fail("HARNESS", "not poisoned".into()) };
        ensure!(!st.is_ok() && st.get_error().get_value() != 0, "status/poison", "a poisoned lock becomes success");
        cx.label("poisoned lock");
    }
    cx.label(&format!("kind {}", k));
    Ok(())
}

// ---------------------------------------------------------------- C30

#[derive(Clone, Copy, Debug)]
enum MOp { Lock, Try, Panic, Pause(u32) }

/// Guarded data: every holder changes all of it in steps.
struct Data { a: u64, b: [u64; 4], log: Vec<u32> }

struct Seen { inside: AtomicBool, clash: AtomicBool, torn: AtomicBool, panics: AtomicU32, over: AtomicBool }

fn work(d: &mut Data, seen: &Seen, me: u32, spin: u32) {
    if seen.inside.swap(true, Ordering::SeqCst) { seen.clash.store(true, Ordering::SeqCst); }
    let a = d.a;
    if d.b.iter().any(|x| *x != a) || d.log.len() as u64 != a { seen.torn.store(true, Ordering::SeqCst); }
    for x in d.b.iter_mut() { *x = a + 1; for _ in 0..spin { std::hint::spin_loop() } }
    if spin % 3 == 0 { std::thread::yield_now(); }
    d.log.push(me);
    d.a = a + 1;
    seen.inside.store(false, Ordering::SeqCst);
}

fn mutex(s: &mut Src, cx: &mut Cx) -> Res {
    let threads = s.urange(2, 4);
    let keep_mutex = s.bool();
    let may_panic = s.chance(1, 8);
    let shared_handle = s.bool();
    let style = s.idx(3);
    let plan: Vec<Vec<(MOp, u32)>> = (0..threads).map(|_| {
        let n = s.urange(1, 40);
        let mut x = s.u64();
        (0..n).map(|_| {
            let r = splitmix(&mut x);
            let op = match r % 20 {
                0 if may_panic => MOp::Panic,
                0..=3 => MOp::Pause((r >> 33) as u32 % 200),
                4..=11 => if style == 2 { MOp::Try } else { MOp::Lock },
                _ => if style == 0 { MOp::Lock } else { MOp::Try },
            };
            (op, (r >> 20) as u32 % 60)
        }).collect()
    }).collect();
    cx.start(s, || clip(format!("threads {} mutex kept {} one handle {} plan {:?}", threads, keep_mutex, shared_handle, plan), 1200));
    let tries = |t: &Vec<(MOp, u32)>| t.iter().any(|o| matches!(o.0, MOp::Lock | MOp::Try));
    cx.nontrivial_if(plan.iter().filter(|t| tries(t)).count() >= 2);
    let m = must("new", || MutexLock::new(Data { a: 0, b: [0; 4], log: vec![] }))?;
    let other = MutexLock::new(0u32);
    let h = must("get_lock", || m.get_lock())?;
    // held and not held, without any other activity
    {
        let g = match must("lock", || h.lock())? { Ok(g) => g, Err(_) => return fail("mutex/poisoned", "a new mutex is poisoned".into()) };
        let h2 = m.get_lock();
        ensure!(matches!(must("try_lock", || h.try_lock().map(|_| ()))?, Err(TryLockError::WouldBlock)), "mutex/exclusion", "try_lock succeeds while this thread holds the lock");
        ensure!(matches!(must("try_lock", || h2.try_lock().map(|_| ()))?, Err(TryLockError::WouldBlock)), "mutex/exclusion", "try_lock through another handle succeeds while the lock is held");
        let from_thread = std::thread::scope(|sc| sc.spawn(|| h2.try_lock().is_err()).join());
        ensure!(matches!(from_thread, Ok(true)), "mutex/exclusion", "try_lock in another thread succeeds while the lock is held");
        ensure!(other.get_lock().try_lock().is_ok(), "mutex/independent", "holding one mutex blocks another");
        drop(g);
        ensure!(must("try_lock", || h2.try_lock().is_ok())?, "mutex/released", "try_lock fails although nobody holds the lock");
    }
    // one handle per thread, or one handle shared by all
    let handles: Vec<Lock<Data>> = (0..threads).map(|_| m.get_lock()).collect();
    let kept = if keep_mutex { Some(m) } else { drop(m); None };
    let seen = Seen { inside: AtomicBool::new(false), clash: AtomicBool::new(false), torn: AtomicBool::new(false), panics: AtomicU32::new(0), over: AtomicBool::new(false) };
    let clock = AtomicU64::new(1);
    let tick = || clock.fetch_add(1, Ordering::SeqCst);
    let ready = AtomicU32::new(0);
    // (start, end) of each time a thread held or may have held the lock; failed attempts
    type Times = (Vec<(u64, u64)>, Vec<(u64, u64)>, u64, bool, bool);
    let results: Vec<std::thread::Result<Times>> = std::thread::scope(|sc| {
        let hs: Vec<_> = plan.iter().enumerate().map(|(t, ops)| {
            let (seen, tick, ready, h) = (&seen, &tick, &ready, if shared_handle { &handles[0] } else { &handles[t] });
            sc.spawn(move || {
                let (mut held, mut refused, mut entered, mut unexpected, mut untold) = (vec![], vec![], 0, false, false);
                ready.fetch_add(1, Ordering::SeqCst);
                while (ready.load(Ordering::Acquire) as usize) < threads { std::hint::spin_loop(); }
                for (op, spin) in ops {
                    let start = tick();
                    match op {
                        MOp::Lock => {
                            let told = seen.over.load(Ordering::SeqCst);
                            let mut g = match h.lock() { Ok(g) => { untold |= told; g } Err(e) => { unexpected |= seen.panics.load(Ordering::SeqCst) == 0; e.into_inner() } };
                            work(&mut g, seen, t as u32, *spin);
                            drop(g);
                            entered += 1;
                            held.push((start, tick()));
                        }
                        MOp::Try => {
                            let told = seen.over.load(Ordering::SeqCst);
                            let g = match h.try_lock() {
                                Ok(g) => { untold |= told; Some(g) }
                                Err(TryLockError::Poisoned(e)) => { unexpected |= seen.panics.load(Ordering::SeqCst) == 0; Some(e.into_inner()) }
                                Err(TryLockError::WouldBlock) => None,
                            };
                            match g {
                                Some(mut g) => { work(&mut g, seen, t as u32, *spin); drop(g); entered += 1; held.push((start, tick())); }
                                None => refused.push((start, tick())),
                            }
                        }
                        MOp::Panic => {
                            let _ = guard(|| {
                                let mut g = match h.lock() { Ok(g) => g, Err(e) => e.into_inner() };
                                work(&mut g, seen, t as u32, *spin);
                                seen.panics.fetch_add(1, Ordering::SeqCst);
                                panic!("in the critical section");
                            });
                            seen.over.store(true, Ordering::SeqCst);
                            entered += 1;
                            held.push((start, tick()));
                        }
                        MOp::Pause(n) => for _ in 0..*n { std::hint::spin_loop() },
                    }
                }
                (held, refused, entered, unexpected, untold)
            })
        }).collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    let mut all = vec![];
    for r in results { match r { Ok(r) => all.push(r), Err(_) => return fail("mutex/panic", "a thread panicked".into()) } }
    ensure!(!seen.clash.load(Ordering::SeqCst), "mutex/exclusion", "two threads were inside the lock at once");
    ensure!(!seen.torn.load(Ordering::SeqCst), "mutex/visibility", "a holder saw an incomplete update");
    ensure!(!all.iter().any(|r| r.3), "mutex/poisoned", "a lock reports poisoning although no holder had panicked");
    ensure!(!all.iter().any(|r| r.4), "mutex/poison", "a holder panicked and a later holder was not told");
    let entered: u64 = all.iter().map(|r| r.2).sum();
    let mut waited = false;
    for (t, r) in all.iter().enumerate() {
        for (s0, e0) in &r.1 {
            waited = true;
            let held = all.iter().enumerate().any(|(u, q)| u != t && q.0.iter().any(|(s1, e1)| s1 < e0 && e1 > s0));
            ensure!(held, "mutex/refused", "try_lock was refused although no other thread was using the lock");
        }
    }
    // afterwards the lock is free and holds every update
    let last = match must("try_lock", || handles[0].try_lock())? {
        Ok(g) => { ensure!(seen.panics.load(Ordering::SeqCst) == 0, "mutex/poison", "a holder panicked and later holders are not told"); g }
        Err(TryLockError::Poisoned(e)) => { ensure!(seen.panics.load(Ordering::SeqCst) > 0, "mutex/poisoned", "poisoned although nobody panicked"); e.into_inner() }
        Err(TryLockError::WouldBlock) => return fail("mutex/released", "the lock is still held after all threads have ended".into()),
    };
    ensure!(last.a == entered && last.b == [entered; 4] && last.log.len() as u64 == entered, "mutex/lost", "{} updates were made, {} are there", entered, last.a);
    for t in 0..threads { let n = last.log.iter().filter(|x| **x == t as u32).count() as u64; ensure!(n == all[t].2, "mutex/lost", "thread {} made {} updates, {} are there", t, all[t].2, n); }
    drop(last);
    // and every handle says the same, every time
    for (i, h) in handles.iter().enumerate() {
        for _ in 0..2 {
            let told = if i % 2 == 0 { must("lock", || h.lock().is_err())? } else { must("try_lock", || matches!(h.try_lock(), Err(TryLockError::Poisoned(_))))? };
            ensure!(told == (seen.panics.load(Ordering::SeqCst) > 0), "mutex/poison", "after {} panics of holders a later holder is {}", seen.panics.load(Ordering::SeqCst), if told { "told of one" } else { "not told" });
        }
    }
    if let Some(m) = kept { ensure!(!matches!(m.get_lock().try_lock().map(|_| ()), Err(TryLockError::WouldBlock)), "mutex/released", "a new handle can not lock"); }
    cx.label_if(waited, "an attempt was refused");
    cx.label_if(seen.panics.load(Ordering::SeqCst) > 0, "a holder panicked");
    cx.evals(entered);
    Ok(())
}

/// Histories of one thread over many handles, with and without the mutex they came from: who holds the lock
/// and whether a holder has panicked is known exactly at every step.
fn handles(s: &mut Src, cx: &mut Cx) -> Res {
    let many = if s.chance(1, 8) { s.urange(20, 400) } else { s.urange(1, 8) };
    let n = s.urange(1, 40);
    let seed = s.u64();
    let panics = s.chance(1, 2);
    cx.start(s, || format!("{} handles, {} steps from seed {:#x}{}", many, n, seed, if panics { ", holders may panic" } else { "" }));
    let mut x = seed;
    let mut mutex = Some(must("new", || MutexLock::new(0u64))?);
    let mut hs: Vec<Lock<u64>> = vec![];
    for _ in 0..many { hs.push(must("get_lock", || mutex.as_ref().unwrap().get_lock())?); }
    let (mut told, mut value, mut uses) = (false, 0u64, 0);
    for step in 0..n {
        let r = splitmix(&mut x);
        let i = (r >> 16) as usize % hs.len();
        let j = (r >> 32) as usize % hs.len();
        match r % 16 {
            0..=5 => {
                let g = must("lock", || hs[i].lock())?;
                ensure!(g.is_err() == told, "mutex/poison", "step {}: {} holders have panicked, lock() through handle {} of {} {}", step, if told { "some" } else { "no" }, i, hs.len(), if told { "does not tell" } else { "says so" });
                let mut g = match g { Ok(g) => g, Err(e) => e.into_inner() };
                ensure!(*g == value, "mutex/lost", "step {}: value {} where {} was written", step, *g, value);
                // nobody else gets in meanwhile
                ensure!(matches!(must("try_lock", || hs[j].try_lock().map(|_| ()))?, Err(TryLockError::WouldBlock)), "mutex/exclusion", "step {}: try_lock succeeds while the lock is held", step);
                value = r; *g = r;
                uses += 1;
            }
            6..=11 => {
                match must("try_lock", || hs[i].try_lock())? {
                    Ok(mut g) => { ensure!(!told, "mutex/poison", "step {}: a holder panicked, try_lock() through handle {} of {} does not tell", step, i, hs.len()); ensure!(*g == value, "mutex/lost", "step {}: value {} where {} was written", step, *g, value); value = r; *g = r; }
                    Err(TryLockError::Poisoned(e)) => { ensure!(told, "mutex/poisoned", "step {}: poisoned although nobody panicked", step); let mut g = e.into_inner(); ensure!(*g == value, "mutex/lost", "step {}: value {} where {} was written", step, *g, value); value = r; *g = r; }
                    Err(TryLockError::WouldBlock) => return fail("mutex/refused", format!("step {}: try_lock through handle {} of {} is refused although nobody holds the lock", step, i, hs.len())),
                }
                uses += 1;
            }
            12 if panics => {
                let by_try = r >> 63 == 0;
                let _ = guard(|| {
                    let mut g = if by_try { match hs[i].try_lock() { Ok(g) => Some(g), Err(TryLockError::Poisoned(e)) => Some(e.into_inner()), Err(TryLockError::WouldBlock) => None } } else { Some(match hs[i].lock() { Ok(g) => g, Err(e) => e.into_inner() }) };
                    if let Some(g) = g.as_mut() { **g = r; }
                    panic!("in the critical section");
                });
                value = r;
                told = true;
                cx.label("a holder panicked");
            }
            13 => if let Some(m) = &mutex { hs.push(must("get_lock", || m.get_lock())?); },
            14 => if hs.len() > 1 {
                if r >> 62 == 0 { hs.truncate(1); cx.label_if(mutex.is_none(), "one handle left alone"); } else { hs.swap_remove(i); }
            },
            _ => { mutex = None; }
        }
    }
    let g = must("lock", || hs[0].lock().map(|g| *g).map_err(|e| **e.get_ref()))?;
    ensure!(g == if told { Err(value) } else { Ok(value) }, "mutex/poison", "in the end the lock says {:?} (value {}, {})", g, value, if told { "a holder panicked" } else { "nobody panicked" });
    cx.label_if(many >= 65, "over 64 handles");
    cx.nontrivial_if(uses >= 2);
    cx.evals(uses);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C25", rule: "list, long_list: at least three elements are added; huge_list: every case", assumptions: &["only the operations that are implemented: the list's removing and peeking operations are todo!()"],
            subs: vec![Sub { name: "list", quick: 60000, thorough: 6000000, run: list_ops }, Sub { name: "long_list", quick: 600, thorough: 40000, run: long_list }, Sub { name: "huge_list", quick: 12, thorough: 500, run: huge_list }] },
        Prop { id: "C26", rule: "some histogram has at least two samples at the end", assumptions: &["samples are non-negative and at most 10^103"],
            subs: vec![Sub { name: "histogram", quick: 60000, thorough: 5000000, run: histogram }, Sub { name: "many_samples", quick: 200, thorough: 15000, run: many_samples }, Sub { name: "doubling", quick: 5000, thorough: 300000, run: doubling }] },
        Prop { id: "C27", rule: "at least three draws", assumptions: &["moduli are at least 1 and max_log at most 31"],
            subs: vec![Sub { name: "random", quick: 100000, thorough: 10000000, run: random }, Sub { name: "long_draws", quick: 600, thorough: 50000, run: long_draws }] },
        Prop { id: "C28", rule: "an error kind with a message", assumptions: &["texts are read only from messages that are valid UTF-8"],
            subs: vec![Sub { name: "status", quick: 60000, thorough: 6000000, run: status }, Sub { name: "long_status", quick: 400, thorough: 30000, run: long_status }] },
        Prop { id: "C30", rule: "mutex: at least two threads acquire the lock; handles: at least two acquisitions", assumptions: &["schedules are sampled by running real threads, not enumerated"],
            subs: vec![Sub { name: "mutex", quick: 12000, thorough: 600000, run: mutex }, Sub { name: "handles", quick: 20000, thorough: 1000000, run: handles }] },
    ]
}
