#![feature(panic_can_unwind)]
mod alloc;
mod engine;
mod worker;
mod refs;
mod props;
mod macros;

use engine::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::process::CommandExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::CheckAlloc = alloc::CheckAlloc;

const CPU_LIMIT: f64 = 25.0; // CPU seconds one case may use
const IDLE_LIMIT: f64 = 25.0; // seconds without any CPU use before a case counts as blocked
const TOTAL_QUICK: f64 = 780.0;
const TOTAL_THOROUGH: f64 = 6.0 * 3600.0;
/// Cases that run several threads themselves get fewer processes, so that their threads really run in parallel.
fn workers(id: &str) -> u64 { if id == "C24" || id == "C30" { 3 } else { 8 } }

fn cpu_of(pid: u32) -> Option<f64> {
    unsafe {
        let mut clk: libc::clockid_t = 0;
        if libc::clock_getcpuclockid(pid as i32, &mut clk) != 0 { return None; }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clk, &mut ts) != 0 { return None; }
        Some(ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9)
    }
}

/// Watches one child's progress through its scratch file.
struct Watch { scratch: *mut u64, last: u64, cpu0: f64, cpu_last: f64, cpu_last_at: Instant }
impl Watch {
    fn new(scratch: *mut u64) -> Watch { Watch { scratch, last: u64::MAX, cpu0: 0.0, cpu_last: 0.0, cpu_last_at: Instant::now() } }
    fn get(&self, i: usize) -> u64 { unsafe { self.scratch.add(i).read_volatile() } }
    fn case(&self) -> (usize, u64, Vec<u64>, u64) {
        let n = (self.get(2) as usize).min(worker::CAP);
        (self.get(0) as usize, self.get(1), (0..n).map(|i| self.get(worker::HDR + i)).collect(), self.get(3))
    }
    /// Some("hang") / Some("blocked") if the current case is stuck.
    fn stuck(&mut self, pid: u32) -> Option<&'static str> {
        let cpu = cpu_of(pid)?;
        let p = self.get(4);
        if p != self.last || self.get(3) == 0 {
            self.last = p;
            self.cpu0 = cpu;
            self.cpu_last = cpu;
            self.cpu_last_at = Instant::now();
            return None;
        }
        if cpu - self.cpu_last > 0.02 {
            self.cpu_last = cpu;
            self.cpu_last_at = Instant::now();
        }
        if cpu - self.cpu0 > CPU_LIMIT { return Some("hang"); }
        if self.cpu_last_at.elapsed().as_secs_f64() > IDLE_LIMIT { return Some("blocked"); }
        None
    }
}

struct Env { tmp: String, prop: &'static str, tier: &'static str, seed: u64, exe: std::path::PathBuf }

fn asan(cmd: &mut Command) {
    cmd.env("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:max_malloc_fill_size=1000000000:malloc_fill_byte=205:\
max_free_fill_size=1000000000:free_fill_byte=221:detect_stack_use_after_return=1:allocator_may_return_null=0:\
handle_segv=1:handle_abort=0:symbolize=0:quarantine_size_mb=64:print_summary=1");
    cmd.env_remove("RUST_BACKTRACE");
    unsafe {
        cmd.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) });
    }
}

/// Reason for a child's death, as (signature, text). None: not attributable to the code under test.
fn death(status: std::process::ExitStatus, stderr: &str) -> Option<(String, String)> {
    for l in stderr.lines().rev() {
        if let Some(i) = l.find("ERROR: AddressSanitizer: ") {
            let kind = l[i + 25..].split(|c: char| c == ' ' || c == '(' || c == ':').next().unwrap_or("?");
            if kind == "out-of-memory" || kind == "allocator" { return None; }
            return Some((format!("memory/{}", kind), clip(stderr.into(), 3000)));
        }
        if let Some(i) = l.find("ERROR: VerifAlloc: ") {
            let what = l[i + 19..].split(" (").next().unwrap_or("?");
            return Some((format!("memory/{}", what.replace(' ', "-")), l.to_string()));
        }
        if let Some(i) = l.find("ERROR: Panic: ") { return Some(("crash/abort".into(), l[i..].to_string())); }
    }
    match status.signal() {
        Some(libc::SIGSEGV) | Some(libc::SIGABRT) | Some(libc::SIGBUS) | Some(libc::SIGILL) | Some(libc::SIGFPE) | Some(libc::SIGTRAP) =>
            Some((format!("crash/signal{}", status.signal().unwrap()), clip(stderr.into(), 2000))),
        _ => None,
    }
}

enum Verdict { Ok, Fail { sig: String, msg: String, desc: String, rec: Vec<u64> }, Error(String) }

/// A process that runs single cases on request.
struct Server<'a> { env: &'a Env, child: Option<(Child, BufReader<std::fs::File>, String)>, watch: Watch, scratch: String, n: u32 }
impl<'a> Server<'a> {
    fn new(env: &'a Env, tag: &str) -> Server<'a> {
        let scratch = format!("{}/serve{}.scratch", env.tmp, tag);
        let watch = Watch::new(worker::map_scratch(&scratch));
        Server { env, child: None, watch, scratch, n: 0 }
    }
    fn stop(&mut self) { if let Some((mut c, _, _)) = self.child.take() { let _ = c.kill(); let _ = c.wait(); } }
    fn start(&mut self) {
        self.n += 1;
        let errp = format!("{}.err{}", self.scratch, self.n);
        let mut fds = [0i32; 2];
        unsafe { assert_eq!(0, libc::pipe(fds.as_mut_ptr())); }
        let (r, w) = (fds[0], fds[1]);
        let mut cmd = Command::new(&self.env.exe);
        cmd.args(["serve", self.env.prop, self.env.tier, &self.scratch]).stdin(Stdio::piped()).stdout(Stdio::null())
            .stderr(std::fs::File::create(&errp).unwrap());
        asan(&mut cmd);
        unsafe {
            cmd.pre_exec(move || { if w != 3 { libc::dup2(w, 3); libc::close(w); } if r != 3 { libc::close(r); } Ok(()) });
        }
        let c = cmd.spawn().expect("spawn server");
        unsafe { libc::close(w); }
        let f = unsafe { std::fs::File::from_raw_fd(r) };
        self.child = Some((c, BufReader::new(f), errp));
        self.watch.last = u64::MAX;
    }
    fn run(&mut self, sub: usize, ch: &[u64]) -> Verdict {
        if self.child.is_none() { self.start(); }
        let mut line = format!("{}", sub);
        for c in ch { line.push_str(&format!(" {}", c)); }
        line.push('\n');
        let (c, rd, errp) = self.child.as_mut().unwrap();
        let _ = c.stdin.as_mut().unwrap().write_all(line.as_bytes());
        let pid = c.id();
        // reset so that the watch starts from this request
        self.watch.last = u64::MAX;
        let t0 = Instant::now();
        let mut first = true;
        let fd = rd.get_ref().as_raw_fd();
        loop {
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            let r = unsafe { libc::poll(&mut p, 1, 100) };
            if r > 0 {
                let mut ans = String::new();
                if p.revents & libc::POLLIN != 0 && rd.read_line(&mut ans).unwrap_or(0) > 0 {
                    let v: Value = match serde_json::from_str(&ans) { Ok(v) => v, Err(e) => return Verdict::Error(e.to_string()) };
                    if v["ok"] == true { return Verdict::Ok; }
                    if v["retire"] == true { self.stop(); }
                    return Verdict::Fail { sig: v["sig"].as_str().unwrap().into(), msg: v["msg"].as_str().unwrap().into(),
                        desc: v["desc"].as_str().unwrap_or("").into(), rec: v["rec"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect() };
                }
                let st = c.wait().expect("wait");
                let err = std::fs::read_to_string(&errp).unwrap_or_default();
                let (_, _, rec, state) = self.watch.case();
                self.child = None;
                return match death(st, &err) {
                    Some((sig, msg)) if state == 2 => Verdict::Fail { sig, msg, desc: String::new(), rec },
                    _ => Verdict::Error(format!("case process ended ({:?}): {}", st, clip(err, 1500))),
                };
            }
            // one spin so that the child has had the chance to take the request
            if first && t0.elapsed() < Duration::from_millis(300) { continue; }
            first = false;
            if let Some(k) = self.watch.stuck(pid) {
                let (_, _, rec, _) = self.watch.case();
                self.stop();
                return Verdict::Fail { sig: format!("nontermination/{}", k), msg: format!("the case does not finish ({})", k), desc: String::new(), rec };
            }
            if t0.elapsed().as_secs_f64() > 300.0 { self.stop(); return Verdict::Error("single case took over 300 s wall time".into()); }
        }
    }
}
impl<'a> Drop for Server<'a> { fn drop(&mut self) { self.stop(); } }

fn shrink(env: &Env, sub: usize, start: Vec<u64>, sig: &str) -> (Vec<u64>, u32) {
    let mut sv = Server::new(env, "shrink");
    let mut best = start;
    let mut tries = 0u32;
    let t0 = Instant::now();
    let slow = sig.starts_with("nontermination");
    let (max_tries, max_time) = if slow { (6, 150.0) } else { (1500, 60.0) };
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, tries: &mut u32| -> bool {
        if *tries >= max_tries || t0.elapsed().as_secs_f64() > max_time { return false; }
        *tries += 1;
        if let Verdict::Fail { sig: s, rec, .. } = sv.run(sub, &cand) {
            if s == sig {
                let mut r = if rec.is_empty() { cand } else { rec };
                while r.last() == Some(&0) { r.pop(); }
                if r.len() < best.len() || (r.len() == best.len() && r < *best) { *best = r; return true; }
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut k = (best.len() / 2).max(1).next_power_of_two();
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                let e = (i + k).min(c.len());
                c.drain(i..e);
                if !attempt(c, &mut best, &mut tries) { i += k; }
            }
            if k == 1 { break; }
            k /= 2;
        }
        // lower an element (often a count) and drop a chunk after it
        for i in 0..best.len().min(60) {
            if i < best.len() && best[i] > 0 {
                for d in [1usize, 2, 3, 4, 6] {
                    for at in [i + 1, best.len().saturating_sub(d)] {
                        if at > i && at + d <= best.len() {
                            let mut c = best.clone();
                            c[i] -= 1;
                            c.drain(at..at + d);
                            if attempt(c, &mut best, &mut tries) { break; }
                        }
                    }
                    if i >= best.len() || best[i] == 0 { break; }
                }
            }
        }
        // make elements smaller
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt(c, &mut best, &mut tries) {
                    let (mut lo, mut hi) = (0u64, v);
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt(c, &mut best, &mut tries) { hi = mid } else { lo = mid }
                        if i >= best.len() { break; }
                    }
                }
            }
            i += 1;
        }
        if best == before || tries >= max_tries || t0.elapsed().as_secs_f64() > max_time { break; }
    }
    (best, tries)
}

fn write_replay(root: &str, prop: &Prop, sub: usize, ch: &[u64], sig: &str, msg: &str, desc: &str) -> String {
    let dir = format!("{}/replays/{}", root, prop.id);
    std::fs::create_dir_all(&dir).ok();
    let mut h = fnv(prop.subs[sub].name.as_bytes());
    for c in ch { h = (h ^ c).wrapping_mul(0x100000001b3).rotate_left(23); }
    let p = format!("{}/{}-{:016x}.json", dir, prop.subs[sub].name, h);
    let v = json!({"property": prop.id, "check": prop.subs[sub].name, "signature": sig, "message": msg, "case": desc, "choices": ch,
        "how": format!("/verif/check.sh {} --replay <this file>", prop.id)});
    std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).ok();
    p
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.get(1).copied() {
        Some("worker") => {
            let p = props::find(a[2]).expect("property");
            let only = if a[9].is_empty() { None } else { Some(a[9]) };
            worker::worker(&p, a[3] == "thorough", a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), a[7], a[8], only, a[10].parse().unwrap());
        }
        Some("serve") => { let p = props::find(a[2]).expect("property"); worker::serve(&p, a[3] == "thorough", a[4]); }
        Some("list") => { for p in props::all() { println!("{}", p.id); } println!("{}", macros::ID); }
        Some(id) if props::find(id).is_some() || id == macros::ID => std::process::exit(parent(id, &a[2..])),
        _ => { eprintln!("usage: harness <property> [--replay FILE | --sub NAME | --scale X]"); std::process::exit(2) }
    }
}

fn parent(id: &str, rest: &[&str]) -> i32 {
    let t0 = Instant::now();
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).map(|x| x as u64).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let (mut only, mut scale, mut replay, mut detect_only) = (String::new(), 1.0f64, None, false);
    let mut it = rest.iter();
    while let Some(x) = it.next() {
        match *x {
            "--sub" => only = it.next().unwrap().to_string(),
            "--detect-only" => detect_only = true, // no confirmation, no shrinking, no evidence: for mutation testing
            "--scale" => scale = it.next().unwrap().parse().unwrap(),
            "--replay" => replay = Some(it.next().unwrap().to_string()),
            _ => { eprintln!("unknown argument {}", x); return 2; }
        }
    }
    if id == macros::ID { return macros::parent(&root, seed, thorough, scale, replay, detect_only); }
    let prop = props::find(id).unwrap();
    let tmp = format!("{}/verif-harness-{}-{}", std::env::temp_dir().display(), id, std::process::id());
    std::fs::create_dir_all(&tmp).expect("tmp dir");
    struct Rm(String);
    impl Drop for Rm { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
    let _rm = Rm(tmp.clone());
    let env = Env { tmp: tmp.clone(), prop: prop.id, tier: if thorough { "thorough" } else { "quick" }, seed, exe: std::env::current_exe().unwrap() };

    if let Some(f) = replay {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("json");
        let sub = prop.subs.iter().position(|s| s.name == v["check"].as_str().unwrap()).expect("check name");
        let ch: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        let mut sv = Server::new(&env, "replay");
        for _ in 0..20 {
            match sv.run(sub, &ch) {
                Verdict::Ok => continue,
                Verdict::Fail { sig, msg, desc, .. } => {
                    println!("check {} signature {}\n{}\ncase: {}", prop.subs[sub].name, sig, msg, desc);
                    println!("VIOLATION property={} replay={}", prop.id, f);
                    return 1;
                }
                Verdict::Error(e) => { eprintln!("error: {}", e); return 2; }
            }
        }
        println!("replay passes");
        return 0;
    }

    // run the workers
    struct W { child: Child, watch: Watch, out: String, err: String, done: bool }
    let mut ws: Vec<W> = vec![];
    let count = workers(prop.id);
    for i in 0..count {
        let scratch = format!("{}/w{}.scratch", tmp, i);
        let out = format!("{}/w{}.json", tmp, i);
        let err = format!("{}/w{}.err", tmp, i);
        let watch = Watch::new(worker::map_scratch(&scratch));
        let mut cmd = Command::new(&env.exe);
        cmd.args(["worker", prop.id, env.tier, &env.seed.to_string(), &i.to_string(), &count.to_string(), &scratch, &out, &only, &scale.to_string()])
            .stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(&err).unwrap());
        asan(&mut cmd);
        ws.push(W { child: cmd.spawn().expect("spawn worker"), watch, out, err, done: false });
    }
    // (sub, idx, choices, sig, msg)
    let mut fails: Vec<(usize, u64, Vec<u64>, String, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    let limit = if thorough { TOTAL_THOROUGH } else { TOTAL_QUICK };
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(20));
        for w in ws.iter_mut().filter(|w| !w.done) {
            if let Some(st) = w.child.try_wait().expect("wait") {
                w.done = true;
                if !st.success() || !std::path::Path::new(&w.out).exists() {
                    let (sub, idx, ch, state) = w.watch.case();
                    let mut s = String::new();
                    let _ = std::fs::File::open(&w.err).and_then(|mut f| f.read_to_string(&mut s));
                    match death(st, &s) {
                        Some((sig, msg)) if state == 2 => fails.push((sub, idx, ch, sig, msg)),
                        _ => errors.push(format!("worker died outside a case or for want of resources ({:?}, state {}): {}", st, state, clip(s, 1500))),
                    }
                }
            } else if let Some(k) = w.watch.stuck(w.child.id()) {
                let (sub, idx, ch, state) = w.watch.case();
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
                if state == 2 { fails.push((sub, idx, ch, format!("nontermination/{}", k), format!("the case does not finish ({})", k))); }
                else { errors.push(format!("worker stuck outside a case ({})", k)); }
            }
        }
        if t0.elapsed().as_secs_f64() > limit {
            for w in ws.iter_mut().filter(|w| !w.done) { let _ = w.child.kill(); let _ = w.child.wait(); w.done = true; }
            errors.push("time budget exhausted: inconclusive".into());
        }
        // once something fatal was found there is no point in finishing the other workers' work
        if !fails.is_empty() || !errors.is_empty() {
            let t = Instant::now();
            while t.elapsed() < Duration::from_millis(1500) && ws.iter_mut().any(|w| !w.done && w.child.try_wait().map(|x| x.is_none()).unwrap_or(false)) {
                std::thread::sleep(Duration::from_millis(20));
            }
            for w in ws.iter_mut().filter(|w| !w.done) {
                if w.child.try_wait().map(|x| x.is_none()).unwrap_or(false) { let _ = w.child.kill(); let _ = w.child.wait(); w.done = true; }
            }
        }
    }
    // collect
    let mut evals = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut persub: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut cut: BTreeMap<String, u64> = BTreeMap::new();
    for w in &ws {
        let Ok(s) = std::fs::read_to_string(&w.out) else { continue };
        let Ok(v) = serde_json::from_str::<Value>(&s) else { errors.push("unreadable worker result".into()); continue };
        evals += v["evals"].as_u64().unwrap();
        for h in v["nontrivial"].as_array().unwrap() { hashes.insert(h.as_u64().unwrap()); }
        for (k, n) in v["labels"].as_object().unwrap() { *labels.entry(k.clone()).or_insert(0) += n.as_u64().unwrap(); }
        for (k, n) in v["persub"].as_object().unwrap() { *persub.entry(k.clone()).or_insert(0) += n.as_u64().unwrap(); }
        for (k, n) in v["known"].as_object().unwrap() { *known.entry(k.clone()).or_insert(0) += n.as_u64().unwrap(); }
        for (k, n) in v["cut"].as_object().unwrap() { *cut.entry(k.clone()).or_insert(0) += n.as_u64().unwrap(); }
        samples.extend(v["samples"].as_array().unwrap().iter().cloned());
        for f in v["failures"].as_array().unwrap() {
            fails.push((f["sub"].as_u64().unwrap() as usize, f["idx"].as_u64().unwrap(),
                f["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
                f["sig"].as_str().unwrap().into(), f["msg"].as_str().unwrap().into()));
        }
    }
    samples.sort_by_key(|s| (s["check"].as_str().unwrap_or("").to_string(), s["case"].as_u64()));
    let mut per: BTreeMap<String, u32> = BTreeMap::new();
    samples.retain(|s| { let e = per.entry(s["check"].as_str().unwrap().to_string()).or_insert(0); *e += 1; *e <= 4 });

    let kn = worker::load_known(prop.id);
    for (sig, n) in &known { println!("KNOWN-FINDING: property={} {} [{} cases, signature {}]", prop.id, kn.get(sig).cloned().unwrap_or_default(), n, sig); }

    fails.sort_by(|x, y| (x.0, x.1).cmp(&(y.0, y.1)));
    if detect_only && errors.is_empty() {
        for (sub, idx, _, sig, msg) in &fails { println!("check {} failed (case {}), signature {}\n{}", prop.subs[*sub].name, idx, sig, clip(msg.clone(), 600)); }
        return !fails.is_empty() as i32;
    }
    let mut violations = 0;
    let mut done_subs = HashSet::new();
    for (sub, idx, ch, sig, msg) in fails.clone() {
        if sig == "HARNESS" { errors.push(format!("harness panic in {}: {}", prop.subs[sub].name, msg)); continue; }
        if !done_subs.insert(sub) { continue; }
        // a failure has to show again on its own in a fresh process
        let mut sv = Server::new(&env, "confirm");
        let tries = if sig.starts_with("nontermination") { 2 } else { 25 };
        let mut confirmed = None;
        for _ in 0..tries {
            match sv.run(sub, &ch) {
                Verdict::Fail { sig, msg, desc, rec } => { confirmed = Some((sig, msg, desc, rec)); break; }
                Verdict::Error(e) => { errors.push(e); break; }
                Verdict::Ok => {}
            }
        }
        drop(sv);
        match confirmed {
            Some((s2, _, _, rec)) => {
                if kn.contains_key(&s2) { println!("KNOWN-FINDING: property={} {}", prop.id, kn[&s2]); continue; }
                let start = if rec.is_empty() { ch.clone() } else { rec };
                let (min, tries) = shrink(&env, sub, start, &s2);
                let mut sv = Server::new(&env, "final");
                let (mut fm, mut fd) = (msg.clone(), String::new());
                for _ in 0..10 { if let Verdict::Fail { msg, desc, .. } = sv.run(sub, &min) { fm = msg; fd = desc; break; } if s2.starts_with("nonterm") { break; } }
                println!("check {} failed (case {}), signature {} (shrunk to {} choices in {} tries)\n{}\ncase: {}", prop.subs[sub].name, idx, s2, min.len(), tries, clip(fm.clone(), 2000), fd);
                let p = write_replay(&root, &prop, sub, &min, &s2, &fm, &fd);
                println!("VIOLATION property={} replay={}", prop.id, p);
                violations += 1;
            }
            None if sig.starts_with("nontermination") => errors.push(format!("case {} of {} was slow once but finishes when run alone: {}", idx, prop.subs[sub].name, msg)),
            None => {
                // seen once and not again: a schedule-dependent failure. The observation itself is sound.
                let p = write_replay(&root, &prop, sub, &ch, &sig, &format!("(not reproduced on every run) {}", msg), "");
                println!("check {} failed (case {}), signature {} (did not show again in {} runs)\n{}", prop.subs[sub].name, idx, sig, tries, clip(msg.clone(), 2000));
                println!("VIOLATION property={} replay={}", prop.id, p);
                violations += 1;
            }
        }
    }
    let ev = json!({"property": prop.id, "tier": env.tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": hashes.len(), "rule": prop.rule, "samples": samples,
            "per_check": persub, "classes": labels, "known_finding_cases": known, "cases_not_reached_in_time": cut},
        "assumptions": prop.assumptions, "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0, "violations": violations});
    std::fs::create_dir_all(format!("{}/evidence", root)).ok();
    std::fs::write(format!("{}/evidence/{}.json", root, prop.id), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!("{}: {} evaluations, {} distinct non-trivial, {:.1} s, tier {}, seed {}", prop.id, evals, hashes.len(), t0.elapsed().as_secs_f64(), env.tier, seed);
    if !cut.is_empty() { println!("{}: out of time before these cases: {:?}", prop.id, cut); }
    if violations > 0 { return 1; }
    if !errors.is_empty() { for e in errors { eprintln!("error: {}", e); } return 2; }
    0
}
