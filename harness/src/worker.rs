//! Child-process side: runs a slice of the cases of one property, or serves single cases for shrinking and
//! replay. The current case is published in a shared file before it runs, so that the parent can recover it
//! if this process dies or stops making progress.
use crate::engine::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};

pub const HDR: usize = 8;
pub const CAP: usize = 1 << 18;
const SOFT_QUICK: f64 = 420.0;
const SOFT_THOROUGH: f64 = 5.0 * 3600.0;

static SCRATCH: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());
static COUNTER: AtomicU64 = AtomicU64::new(0);

pub fn map_scratch(path: &str) -> *mut u64 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("scratch");
    f.set_len(((HDR + CAP) * 8) as u64).expect("scratch size");
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), (HDR + CAP) * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut u64
}

fn put(i: usize, v: u64) {
    let p = SCRATCH.load(Ordering::Relaxed);
    if !p.is_null() { unsafe { p.add(i).write_volatile(v) } }
}

/// Layout: 0 sub, 1 case index, 2 number of choices, 3 state (0 idle, 1 generating, 2 running), 4 progress.
pub fn publish_case(rec: &[u64]) {
    let p = SCRATCH.load(Ordering::Relaxed);
    if p.is_null() { return; }
    let n = rec.len().min(CAP);
    unsafe { std::ptr::copy_nonoverlapping(rec.as_ptr(), p.add(HDR), n); }
    put(2, n as u64);
    put(3, 2);
}

fn begin(sub: usize, idx: u64) {
    put(0, sub as u64);
    put(1, idx);
    put(2, 0);
    put(3, 1);
    put(4, COUNTER.fetch_add(1, Ordering::Relaxed) + 1);
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    let mut x = seed ^ fnv(prop.as_bytes()).rotate_left(17) ^ fnv(sub.as_bytes()).rotate_left(31) ^ idx.wrapping_mul(0xD134_2543_DE82_EF95);
    splitmix(&mut x);
    splitmix(&mut x)
}

pub fn run_one(sub: &Sub, src: &mut Src, cx: &mut Cx) -> Res {
    match guard(|| (sub.run)(src, cx)) {
        Ok(r) => r,
        Err(m) => {
            // a panic inside /repo that the property did not expect, or a bug of the harness
            if m.contains("panic at src/") && !m.contains("panic at src/harness") || !cx.started {
                let lib = !m.contains("panic at src/engine") && !m.contains("panic at src/props");
                if cx.started && lib { return fail(&format!("{}/panic", sub.name), m); }
                return fail("HARNESS", m);
            }
            fail(&format!("{}/panic", sub.name), m)
        }
    }
}

pub fn load_known(prop: &str) -> HashMap<String, String> {
    let mut m = HashMap::new();
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    if let Ok(s) = std::fs::read_to_string(format!("{}/known-findings.txt", root)) {
        for l in s.lines() {
            // KNOWN property=<id> sig=<signature> <description>
            if let Some(r) = l.strip_prefix("KNOWN property=") {
                let mut it = r.splitn(3, ' ');
                if it.next() == Some(prop) {
                    if let Some(sig) = it.next().and_then(|s| s.strip_prefix("sig=")) {
                        m.insert(sig.to_string(), it.next().unwrap_or("").to_string());
                    }
                }
            }
        }
    }
    m
}

pub fn worker(prop: &Prop, thorough: bool, seed: u64, me: u64, of: u64, scratch: &str, out: &str, only: Option<&str>, scale: f64) {
    SCRATCH.store(map_scratch(scratch), Ordering::Relaxed);
    install_panic_hook();
    let known = load_known(prop.id);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut persub: BTreeMap<String, u64> = BTreeMap::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut failures: Vec<Value> = vec![];
    let mut knownhits: BTreeMap<String, u64> = BTreeMap::new();
    let mut evals = 0u64;
    // A safety net for a machine much slower than the budgets were set on: each check may use its share of the
    // time that is left, and what it did not get to is reported.
    let t0 = std::time::Instant::now();
    let soft = if thorough { SOFT_THOROUGH } else { SOFT_QUICK };
    let mut cut: BTreeMap<String, u64> = BTreeMap::new();
    let chosen = prop.subs.iter().filter(|s| only.map_or(true, |o| s.name == o)).count();
    let mut nth = 0;
    for (si, sub) in prop.subs.iter().enumerate() {
        if let Some(o) = only { if sub.name != o { continue; } }
        let now = t0.elapsed().as_secs_f64();
        let until = now + (soft - now).max(1.0) / (chosen - nth) as f64;
        nth += 1;
        let n = if thorough { sub.thorough } else { sub.quick };
        let n = ((n as f64 * scale).ceil()) as u64;
        let every = (n / 24).max(1);
        let mut got = 0;
        let mut idx = me;
        while idx < n {
            if t0.elapsed().as_secs_f64() > until { cut.insert(sub.name.to_string(), (n - idx).div_ceil(of)); break; }
            let mut src = Src::random(case_seed(seed, prop.id, sub.name, idx));
            let mut cx = Cx { tier_thorough: thorough, index: idx, ..Default::default() };
            cx.want_desc = idx / of % every.div_ceil(of).max(1) == 0 && got < 3;
            begin(si, idx);
            let r = run_one(sub, &mut src, &mut cx);
            put(3, 0);
            if r.is_err() { crate::alloc::forgive(); }
            evals += 1 + cx.inner;
            *persub.entry(sub.name.to_string()).or_insert(0) += 1 + cx.inner;
            for (k, v) in cx.labels { *labels.entry(format!("{}:{}", sub.name, k)).or_insert(0) += v; }
            if cx.nontrivial {
                let mut h = fnv(sub.name.as_bytes());
                for c in &src.rec { h = (h ^ c).wrapping_mul(0x100000001b3).rotate_left(23); }
                seen.insert(h);
                if cx.want_desc { got += 1; samples.push(json!({"check": sub.name, "case": idx, "input": cx.desc})); }
            }
            if let Err(f) = r {
                if known.contains_key(&f.sig) {
                    *knownhits.entry(f.sig).or_insert(0) += 1;
                } else {
                    failures.push(json!({"sub": si, "idx": idx, "choices": src.rec, "sig": f.sig, "msg": f.msg}));
                    break;
                }
            }
            idx += of;
        }
    }
    put(3, 0);
    let v = json!({"evals": evals, "nontrivial": seen.into_iter().collect::<Vec<u64>>(), "labels": labels, "persub": persub,
        "samples": samples, "failures": failures, "known": knownhits, "cut": cut});
    std::fs::write(out, v.to_string()).expect("write results");
}

/// Serve single cases: each input line is "<sub> <choice> <choice> ...", each answer "ok", or "fail <json>".
pub fn serve(prop: &Prop, thorough: bool, scratch: &str) {
    SCRATCH.store(map_scratch(scratch), Ordering::Relaxed);
    install_panic_hook();
    let stdin = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        if stdin.read_line(&mut line).unwrap_or(0) == 0 { return; }
        let mut it = line.split_whitespace();
        let si: usize = it.next().unwrap().parse().unwrap();
        let ch: Vec<u64> = it.map(|x| x.parse().unwrap()).collect();
        let mut src = Src::replay(ch);
        let mut cx = Cx { want_desc: true, tier_thorough: thorough, ..Default::default() };
        begin(si, 0);
        let r = run_one(&prop.subs[si], &mut src, &mut cx);
        put(3, 0);
        // a process that holds much of what failed cases leaked is replaced by the parent
        let retire = r.is_err() && crate::alloc::forgive() > 256 << 20;
        let a = match r {
            Ok(()) => json!({"ok": true, "desc": cx.desc, "rec": src.rec}),
            Err(f) => json!({"ok": false, "sig": f.sig, "msg": f.msg, "desc": cx.desc, "rec": src.rec, "retire": retire}),
        };
        // answer on fd 3: fd 1 is closed to the library's own prints
        let s = format!("{}\n", a);
        unsafe { libc::write(3, s.as_ptr() as *const _, s.len()); }
    }
}
