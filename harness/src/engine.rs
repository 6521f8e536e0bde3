//! Property-based testing engine: recorded choice sequences (so that generation, replay, crash capture and
//! shrinking all work on one flat value), labels, counters and failures.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes { h = (h ^ *b as u64).wrapping_mul(0x100000001b3); }
    h
}

/// Source of choices. In random mode every draw is recorded; in replay mode draws come from the recording
/// (reduced into range), and 0 once it is used up. 0 is always the simplest choice.
pub struct Src {
    rng: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src { Src { rng: seed, replay: None, pos: 0, rec: vec![] } }
    pub fn replay(v: Vec<u64>) -> Src { Src { rng: 0, replay: Some(v), pos: 0, rec: vec![] } }
    fn raw(&mut self, bound: u64) -> u64 {
        // bound == 0 means the full 64-bit range
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                if bound != 0 && v >= bound { v % bound } else { v }
            }
            None => {
                let v = splitmix(&mut self.rng);
                if bound == 0 { v } else { ((v as u128 * bound as u128) >> 64) as u64 }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: u64) -> u64 { debug_assert!(n > 0); self.raw(n) }
    pub fn idx(&mut self, n: usize) -> usize { self.raw(n as u64) as usize }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + if hi - lo == u64::MAX { self.raw(0) } else { self.raw(hi - lo + 1) } }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize { self.range(lo as u64, hi as u64) as usize }
    pub fn u64(&mut self) -> u64 { self.raw(0) }
    pub fn u32(&mut self) -> u32 { self.raw(1 << 32) as u32 }
    pub fn u8(&mut self) -> u8 { self.raw(256) as u8 }
    pub fn bool(&mut self) -> bool { self.raw(2) == 1 }
    /// true with probability num/den.
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.raw(den) >= den - num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.idx(xs.len()); &xs[i] }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.raw(total);
        for (i, x) in w.iter().enumerate() { if v < *x { return i; } v -= x; }
        w.len() - 1
    }
    /// A length: mostly small, sometimes around powers of two, up to max.
    pub fn len(&mut self, max: usize) -> usize {
        let v = match self.weighted(&[4, 4, 2, 1]) {
            0 => self.idx(9),
            1 => self.idx(41),
            2 => { let k = self.idx(18); let d = self.idx(5); ((1usize << k) + d).saturating_sub(2) }
            _ => self.idx(max + 1),
        };
        v.min(max)
    }
    /// 64-bit value, biased to edges and to every bit length.
    pub fn edge64(&mut self) -> u64 {
        match self.weighted(&[3, 4, 3, 1]) {
            0 => self.below(300),
            1 => { let k = self.idx(64); let d = self.below(5); (1u64 << k).wrapping_add(d).wrapping_sub(2) }
            2 => { let k = self.idx(64); let v = self.u64(); v >> k }
            _ => self.u64(),
        }
    }
    pub fn edge32(&mut self) -> u32 {
        match self.weighted(&[3, 4, 3, 1]) {
            0 => self.below(300) as u32,
            1 => { let k = self.idx(32); let d = self.below(5) as u32; (1u32 << k).wrapping_add(d).wrapping_sub(2) }
            2 => { let k = self.idx(32); let v = self.u32(); v >> k }
            _ => self.u32(),
        }
    }
    /// n bytes of varied character. Short strings are drawn byte by byte (so that they shrink well), long
    /// ones from a seed.
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if n == 0 { return vec![]; }
        match self.weighted(&[2, 3, 2, 2, 1]) {
            0 => { let b = self.u8(); vec![b; n] }
            1 if n <= 24 => (0..n).map(|_| self.u8()).collect(),
            2 if n <= 24 => (0..n).map(|_| *self.pick(&[b'a', b'b', 0, 0xff, 0x80, 0x7f])).collect(),
            3 => { let mut s = self.u64(); (0..n).map(|_| b'a' + (splitmix(&mut s) % 26) as u8).collect() }
            _ => { let mut s = self.u64(); (0..n).map(|_| splitmix(&mut s) as u8).collect() }
        }
    }
    pub fn blob(&mut self, max: usize) -> Vec<u8> { let n = self.len(max); self.bytes(n) }
    /// Valid UTF-8 text of about n characters.
    pub fn text(&mut self, max: usize) -> String {
        let n = self.idx(max + 1);
        let style = self.idx(3);
        (0..n).map(|_| match style {
            0 => (b'a' + self.idx(26) as u8) as char,
            1 => (32 + self.idx(95) as u8) as char,
            _ => *self.pick(&['a', '\u{0}', 'é', '中', '🦀', '\u{7f}', ':', ' ', '\n', '\u{80}', 'Z']),
        }).collect()
    }
}

#[derive(Debug, Clone)]
pub struct Fail { pub sig: String, pub msg: String }
pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> { Err(Fail { sig: sig.to_string(), msg }) }

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => { if !($cond) { return $crate::engine::fail($sig, format!($($arg)*)); } };
}

/// Per-case context.
#[derive(Default)]
pub struct Cx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub desc: String,
    pub want_desc: bool,
    pub inner: u64,
    pub tier_thorough: bool,
    pub index: u64,
    pub started: bool,
}

impl Cx {
    /// Everything has been generated: note the case before running it.
    pub fn start(&mut self, src: &Src, d: impl FnOnce() -> String) {
        self.started = true;
        if self.want_desc { self.desc = clip(d(), 1500); }
        crate::worker::publish_case(&src.rec);
    }
    pub fn label(&mut self, l: &str) { *self.labels.entry(l.to_string()).or_insert(0) += 1; }
    pub fn label_if(&mut self, c: bool, l: &str) { if c { self.label(l) } }
    pub fn nontrivial_if(&mut self, c: bool) { if c { self.nontrivial = true } }
    /// Count further evaluations made inside one generated case.
    pub fn evals(&mut self, n: u64) { self.inner += n; }
}

pub fn clip(mut s: String, n: usize) -> String {
    if s.len() > n {
        let mut k = n;
        while !s.is_char_boundary(k) { k -= 1; }
        s.truncate(k);
        s.push_str("...");
    }
    s
}

thread_local! { static PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let at = info.location().map(|l| format!("{}:{}", short(l.file()), l.line())).unwrap_or_default();
        let text = format!("panic at {}: {}", at, m);
        // also on stderr: if the process dies the parent reads the reason there
        if !info.can_unwind() { eprintln!("ERROR: Panic: {}", text); }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(text));
    }));
}
fn short(f: &str) -> &str { f.strip_prefix("/repo/").unwrap_or(f) }

/// Run f, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let r = catch_unwind(AssertUnwindSafe(f));
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

/// Run f; a panic is a failure with this signature.
pub fn must<T>(sig: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    guard(f).map_err(|m| Fail { sig: format!("{}/panic", sig), msg: m })
}

pub struct Sub {
    pub name: &'static str,
    /// cases in the quick and thorough tiers
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Cx) -> Res,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

pub fn hex(b: &[u8]) -> String {
    if b.len() <= 40 { b.iter().map(|x| format!("{:02x}", x)).collect() }
    else { format!("{}..(len {}, fnv {:x})", b[..24].iter().map(|x| format!("{:02x}", x)).collect::<String>(), b.len(), fnv(b)) }
}
