//! C01-C05: the write-ahead log.
use crate::engine::*;
use crate::ensure;
use crate::refs::*;
use level_db_rust::db::log_reader::{LogReader, SeekableReader};
use level_db_rust::db::log_writer::LogWriter;
use level_db_rust::util::slice::Slice;
use std::cell::RefCell;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

// ---------------------------------------------------------------- generators

/// Content of one record: (mode, seed) so that long records cost few choices.
fn content(s: &mut Src, n: usize) -> Vec<u8> {
    if n == 0 { return vec![]; }
    match s.weighted(&[4, 2, 1, 1]) {
        0 => { let mut x = s.u64(); (0..n).map(|_| splitmix(&mut x) as u8).collect() }
        1 => { let b = s.u8(); vec![b; n] }
        2 => { let k = s.below(256) as u8; (0..n).map(|i| (i as u8).wrapping_mul(k)).collect() }
        _ => {
            // bytes that themselves look like log fragments
            let mut v = vec![];
            let seed = s.u64();
            let mut x = seed;
            let unit = 1 + (seed % 40) as usize;
            while v.len() < n {
                let ty = 1 + (splitmix(&mut x) % 4) as u8;
                let body = vec![b'X'; unit];
                log_fragment(&mut v, ty, &body);
            }
            v.truncate(n);
            v
        }
    }
}

/// Records whose ends are steered towards block boundaries.
pub fn records(s: &mut Src, max: usize, big: bool) -> Vec<Vec<u8>> {
    let n = s.urange(0, max);
    let mut pos = 0usize; // position in the encoded file
    let mut out: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let left = BLOCK - pos % BLOCK;
        let len = match s.weighted(&[3, 4, 3, if big { 5 } else { 1 }, if big { 2 } else { 0 }]) {
            0 => s.len(60),
            1 => s.len(2000),
            2 => 0,
            // end within a few bytes of this (or a following) block's end
            3 => {
                let blocks = if big { s.weighted(&[6, 2, 1]) } else { 0 };
                let d = s.range(0, 32) as i64 - 16;
                let room = if left < HEADER { left + BLOCK - HEADER } else { left - HEADER };
                ((room + blocks * (BLOCK - HEADER)) as i64 + d).max(0) as usize
            }
            _ => s.urange(0, 90_000),
        };
        out.push(content(s, len));
        pos = log_encode_len(pos, len);
    }
    out
}
/// Long logs: many records, or records of several MiB, from few choices. At most about 9 MB in all.
pub fn long_records(s: &mut Src) -> Vec<Vec<u8>> {
    let style = s.weighted(&[12, 12, 8, 8, 1]);
    let n = match style { 4 => s.urange(60_000, 140_000), 0 => s.urange(1, 5000), 1 => s.urange(1, 3), 2 => s.urange(1, 400), _ => s.urange(1, 60) };
    let seed = s.u64();
    let cap = match style { 4 => s.idx(4), 0 => s.urange(0, 600), 1 => s.urange(100_000, 4_500_000), 2 => s.urange(0, 20_000), _ => s.urange(30_000, 140_000) };
    let mut x = seed;
    let mut total = 0usize;
    let mut out = vec![];
    for i in 0..n {
        let r = splitmix(&mut x);
        let mut len = match r % 5 { 0 => (r >> 8) as usize % if style == 4 { 3 } else { 20 }, 1 if style != 1 => 0, _ => (r >> 8) as usize % (cap + 1) };
        if style == 1 && i == 0 { len = cap; }
        total += len;
        if total > 9_000_000 { break; }
        let mut y = r;
        // cheap to make, but no two stretches alike
        let mut v = vec![0u8; len];
        for c in v.chunks_mut(8) { let w = splitmix(&mut y).to_le_bytes(); let k = c.len(); c.copy_from_slice(&w[..k]); }
        out.push(v);
    }
    out
}
fn log_encode_len(mut pos: usize, len: usize) -> usize {
    let mut left = len;
    loop {
        let off = pos % BLOCK;
        if BLOCK - off < HEADER { pos += BLOCK - off; }
        let n = left.min(BLOCK - pos % BLOCK - HEADER);
        pos += HEADER + n;
        left -= n;
        if left == 0 { return pos; }
    }
}
fn describe(recs: &[Vec<u8>]) -> String {
    format!("{} records of lengths {:?}{}: [{}]", recs.len(), recs.iter().take(60).map(|r| r.len()).collect::<Vec<_>>(), if recs.len() > 60 { " and so on" } else { "" },
        recs.iter().take(6).map(|r| hex(r)).collect::<Vec<_>>().join(", "))
}
fn shape(cx: &mut Cx, recs: &[Vec<u8>]) {
    let (bytes, spans) = log_encode(recs);
    cx.label_if(recs.is_empty(), "no records");
    cx.label_if(recs.iter().any(|r| r.is_empty()), "empty record");
    cx.label_if(spans.iter().any(|s| s.frags > 1), "fragmented record");
    cx.label_if(spans.iter().any(|s| s.frags > 2), "record over three blocks or more");
    cx.label_if(spans.iter().any(|s| s.end % BLOCK == 0), "record ends at a block boundary");
    cx.label_if(spans.windows(2).any(|w| w[1].start > w[0].end), "block trailer");
    cx.label_if(spans.iter().any(|s| s.start % BLOCK == BLOCK - HEADER), "header fills the block");
    cx.label_if(bytes.len() > BLOCK, "several blocks");
    cx.label_if(bytes.len() > 1 << 20, "log over 1 MiB");
    cx.label_if(recs.len() > 1000, "over 1000 records");
    cx.label_if(spans.iter().any(|s| s.frags > 64), "record over 2 MiB");
}

// ---------------------------------------------------------------- plumbing

#[derive(Default)]
struct SinkState { data: Vec<u8>, flushed: usize, calls: u64, failed: bool, flush_interrupted: bool }
#[derive(Clone, Default)]
struct Sink(Rc<RefCell<SinkState>>, Rc<RefCell<Plan>>);
/// Faults: per call, in order; what is not listed succeeds fully.
#[derive(Default)]
struct Plan { write: Vec<Act>, wi: usize, flush_fail_at: Option<(u64, ErrorKind)>, flushes: u64 }
#[derive(Clone, Debug)]
enum Act { All, Short(usize), Intr, Fail(ErrorKind), Zero }

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut p = self.1.borrow_mut();
        let a = p.write.get(p.wi).cloned().unwrap_or(Act::All);
        p.wi += 1;
        let mut s = self.0.borrow_mut();
        s.calls += 1;
        let n = match a {
            Act::All => b.len(),
            Act::Short(n) => n.clamp(1, b.len().max(1)).min(b.len()),
            Act::Intr => return Err(ErrorKind::Interrupted.into()),
            Act::Fail(k) => { s.failed = true; return Err(io::Error::new(k, "injected")); }
            Act::Zero => { if !b.is_empty() { s.failed = true; } 0 }
        };
        s.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut p = self.1.borrow_mut();
        p.flushes += 1;
        let mut s = self.0.borrow_mut();
        if let Some((at, k)) = p.flush_fail_at { if at == p.flushes {
            // an interrupted flush may be tried again
            if k == ErrorKind::Interrupted { s.flush_interrupted = true; } else { s.failed = true; }
            return Err(io::Error::new(k, "injected flush error")); } }
        s.flushed = s.data.len();
        Ok(())
    }
}

/// A reader that delivers data in chunks and may fail at a given call.
struct Source {
    data: Rc<Vec<u8>>,
    pos: usize,
    chunk: Vec<usize>, // sizes per call, cyclic; empty: everything asked for
    calls: usize,
    intr: u64, // every intr-th call is interrupted first
    fail_at: Option<(usize, bool, ErrorKind)>, // call number, persistent, kind
    fired: Rc<RefCell<bool>>,
}
impl Source {
    fn plain(data: Vec<u8>) -> Source {
        Source { data: Rc::new(data), pos: 0, chunk: vec![], calls: 0, intr: 0, fail_at: None, fired: Default::default() }
    }
}
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if let Some((k, persist, kind)) = self.fail_at {
            if self.calls == k || persist && self.calls > k {
                *self.fired.borrow_mut() = true;
                return Err(io::Error::new(kind, "injected read error"));
            }
        }
        if self.intr > 0 && self.calls as u64 % self.intr == 0 { return Err(ErrorKind::Interrupted.into()); }
        let mut n = b.len().min(self.data.len().saturating_sub(self.pos));
        if !self.chunk.is_empty() { n = n.min(self.chunk[self.calls % self.chunk.len()].max(1)); }
        let at = self.pos.min(self.data.len());
        b[..n].copy_from_slice(&self.data[at..at + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Seek for Source {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let p = match to {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::Current(d) => self.pos as i64 + d,
            SeekFrom::End(d) => self.data.len() as i64 + d,
        };
        if p < 0 { return Err(ErrorKind::InvalidInput.into()); }
        self.pos = p as usize;
        Ok(p as u64)
    }
}
impl SeekableReader for Source {}
struct FileSource(std::fs::File);
impl Read for FileSource { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) } }
impl Seek for FileSource { fn seek(&mut self, t: SeekFrom) -> io::Result<u64> { self.0.seek(t) } }
impl SeekableReader for FileSource {}

pub fn write_log(recs: &[Vec<u8>]) -> Result<Vec<u8>, Fail> {
    let sink = Sink::default();
    let mut w = LogWriter::new(Box::new(sink.clone()));
    for (i, r) in recs.iter().enumerate() {
        let x = must("append", || w.add_record(Slice::from_buf(r)))?;
        ensure!(x.is_ok(), "append/error", "appending record {} (length {}) failed: {:?}", i, r.len(), x.err());
    }
    drop(w);
    let d = sink.0.borrow().data.clone();
    Ok(d)
}

#[derive(Debug, Clone, PartialEq)]
pub enum Got { Rec(Vec<u8>), End, Err(String) }

pub fn next(r: &mut LogReader) -> Result<Got, Fail> {
    let x = must("read", || r.read_next())?;
    Ok(match x {
        Ok(Some(s)) => Got::Rec(s.to_vec()),
        Ok(None) => Got::End,
        Err(e) => Got::Err(must("read/error-text", || e.to_string())?),
    })
}
fn show(g: &Got) -> String { match g { Got::Rec(r) => format!("record {}", hex(r)), Got::End => "end".into(), Got::Err(e) => format!("error {:?}", e) } }

/// Reads until end, error or limit; returns records read and what stopped it.
pub fn read_all(r: &mut LogReader, limit: usize) -> Result<(Vec<Vec<u8>>, Got), Fail> {
    let mut v = vec![];
    loop {
        match next(r)? {
            Got::Rec(x) => { v.push(x); if v.len() > limit { return fail("read/too-many", format!("more than {} records", limit)); } }
            g => return Ok((v, g)),
        }
    }
}
pub fn open(data: Vec<u8>, checksum: bool, off: usize) -> Result<LogReader, Fail> {
    must("open", || LogReader::new(Box::new(Source::plain(data)), checksum, off))
}
pub fn same_records(sig: &str, what: &str, got: &[Vec<u8>], want: &[Vec<u8>]) -> Res {
    for i in 0..got.len().max(want.len()) {
        match (got.get(i), want.get(i)) {
            (Some(a), Some(b)) if a == b => {}
            (a, b) => return fail(sig, format!("{}: record {}: read {}, expected {} (read {} records, expected {})", what, i,
                a.map(|x| hex(x)).unwrap_or("nothing".into()), b.map(|x| hex(x)).unwrap_or("nothing".into()), got.len(), want.len())),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C01

fn roundtrip(s: &mut Src, cx: &mut Cx) -> Res {
    let big = s.chance(1, 2);
    let recs = records(s, if big { 10 } else { 40 }, big);
    let checksum = !s.chance(1, 4);
    let file = s.chance(1, 12);
    cx.start(s, || format!("checksum {}, file {}, {}", checksum, file, describe(&recs)));
    shape(cx, &recs);
    cx.label_if(!checksum, "checksum off");
    cx.nontrivial_if(recs.len() >= 2 && recs.iter().any(|r| r.len() > 0));
    let data = if file {
        let p = std::env::temp_dir().join(format!("verif-wal-{}", std::process::id()));
        let f = std::fs::File::create(&p).expect("tmp");
        let mut w = LogWriter::new(Box::new(f));
        for r in &recs { must("append", || w.add_record(Slice::from_buf(r)))?.map_err(|e| Fail { sig: "append/error".into(), msg: e.to_string() })?; }
        drop(w);
        let f = std::fs::File::open(&p).expect("tmp");
        let _ = std::fs::remove_file(&p);
        let mut r = must("open", || LogReader::new(Box::new(FileSource(f)), checksum, 0))?;
        let (got, stop) = read_all(&mut r, recs.len() + 8)?;
        same_records("roundtrip/records", "log in a file", &got, &recs)?;
        ensure!(stop == Got::End, "roundtrip/end", "after all records: {}", show(&stop));
        return Ok(());
    } else { write_log(&recs)? };
    let mut r = open(data, checksum, 0)?;
    let (got, stop) = read_all(&mut r, recs.len() + 8)?;
    if let Got::Err(e) = &stop { ensure!(got.len() == recs.len(), "roundtrip/read-error", "reading back failed after {} of {} records: {}", got.len(), recs.len(), e); }
    same_records("roundtrip/records", "log", &got, &recs)?;
    ensure!(stop == Got::End, "roundtrip/end", "after all {} records: {}", recs.len(), show(&stop));
    for _ in 0..3 {
        let g = next(&mut r)?;
        ensure!(g == Got::End, "roundtrip/end-again", "reading past the end: {}", show(&g));
    }
    Ok(())
}

/// Two records placed so that the first ends at every distance from a block end, exhaustively by index.
fn boundary(s: &mut Src, cx: &mut Cx) -> Res {
    // choices: distance of first record's end from block end, second length class, checksum
    let d = s.range(0, 40) as usize;
    let blocks = s.below(3) as usize;
    let first = (BLOCK - HEADER) * (blocks + 1) - d;
    let second = match s.below(5) { 0 => 0, 1 => 1, 2 => s.urange(0, 40), 3 => (BLOCK - HEADER) - s.urange(0, 20), _ => BLOCK + s.urange(0, 20) };
    let third = s.urange(0, 3);
    let x = s.u64();
    let mk = |n: usize, k: u64| { let mut y = x ^ k; (0..n).map(|_| splitmix(&mut y) as u8).collect::<Vec<u8>>() };
    let recs = vec![mk(first, 1), mk(second, 2), mk(third, 3)];
    cx.start(s, || describe(&recs));
    shape(cx, &recs);
    cx.nontrivial = true;
    let data = write_log(&recs)?;
    for checksum in [true, false] {
        let mut r = open(data.clone(), checksum, 0)?;
        let (got, stop) = read_all(&mut r, 8)?;
        same_records("roundtrip/records", "log", &got, &recs)?;
        ensure!(stop == Got::End, "roundtrip/end", "after all records: {}", show(&stop));
    }
    Ok(())
}

fn long_log(s: &mut Src, cx: &mut Cx) -> Res {
    let recs = long_records(s);
    let checksum = !s.chance(1, 4);
    let chunk = if s.chance(1, 3) { vec![1 + s.idx(70_000)] } else { vec![] };
    cx.start(s, || format!("checksum {}, delivered in {:?}, {}", checksum, chunk, describe(&recs)));
    shape(cx, &recs);
    cx.nontrivial_if(recs.len() >= 2);
    let data = write_log(&recs)?;
    let mut src = Source::plain(data);
    src.chunk = if chunk.iter().any(|c| *c < 2000) { vec![2000] } else { chunk };
    let mut r = must("open", || LogReader::new(Box::new(src), checksum, 0))?;
    let (got, stop) = read_all(&mut r, recs.len() + 8)?;
    if let Got::Err(e) = &stop { ensure!(got.len() == recs.len(), "roundtrip/read-error", "reading back failed after {} of {} records: {}", got.len(), recs.len(), e); }
    same_records("roundtrip/records", "long log", &got, &recs)?;
    ensure!(stop == Got::End, "roundtrip/end", "after all {} records: {}", recs.len(), show(&stop));
    Ok(())
}

// ---------------------------------------------------------------- C02

fn writer_bytes(s: &mut Src, cx: &mut Cx) -> Res {
    let big = s.chance(1, 2);
    let recs = records(s, if big { 10 } else { 40 }, big);
    cx.start(s, || describe(&recs));
    shape(cx, &recs);
    cx.nontrivial_if(!recs.is_empty());
    let got = write_log(&recs)?;
    let (want, spans) = log_encode(&recs);
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        let rec = spans.iter().position(|s| at < s.end);
        return fail("format/bytes", format!("written log differs from the format at byte {} (record {:?}, offset in block {}): written {} bytes ..{}, expected {} bytes ..{}",
            at, rec, at % BLOCK, got.len(), hex(&got[at.min(got.len())..(at + 12).min(got.len())]), want.len(), hex(&want[at.min(want.len())..(at + 12).min(want.len())])));
    }
    Ok(())
}

fn long_format(s: &mut Src, cx: &mut Cx) -> Res {
    let recs = long_records(s);
    let checksum = s.bool();
    let (want, spans) = log_encode(&recs);
    let k = s.urange(1, 4);
    let offs: Vec<usize> = (0..k).map(|_| match s.below(4) {
        0 => s.urange(0, want.len()),
        1 => { let p = s.pick(&spans).clone(); let d = s.range(0, 4) as i64 - 2; (p.start as i64 + d).max(0) as usize }
        2 => { let b = s.urange(0, want.len() / BLOCK + 1) * BLOCK; let d = s.range(0, 24) as i64 - 12; (b as i64 + d).max(0) as usize }
        _ => want.len() + s.urange(0, 100_000), // beyond the end: nothing is left
    }).collect();
    cx.start(s, || format!("offsets {:?}, checksum {}, {}", offs, checksum, describe(&recs)));
    shape(cx, &recs);
    cx.nontrivial_if(recs.len() >= 2);
    cx.evals(offs.len() as u64);
    let got = write_log(&recs)?;
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return fail("format/bytes", format!("the written log ({} bytes) differs from the format ({} bytes) at byte {}, {} in its block, record {:?}", got.len(), want.len(), at, at % BLOCK, spans.iter().position(|s| at < s.end)));
    }
    for off in offs {
        cx.label_if(off > want.len(), "offset beyond the end");
        let expect: Vec<Vec<u8>> = spans.iter().zip(&recs).filter(|(p, _)| p.start >= off).map(|(_, r)| r.clone()).collect();
        let mut r = open(want.clone(), checksum, off)?;
        let (got, stop) = read_all(&mut r, recs.len() + 8)?;
        same_records("offset/records", &format!("reading from offset {}", off), &got, &expect)?;
        ensure!(stop == Got::End, "offset/end", "reading from offset {}: after {} records: {}", off, got.len(), show(&stop));
    }
    Ok(())
}

fn foreign(s: &mut Src, cx: &mut Cx) -> Res {
    let big = s.chance(1, 2);
    let recs = records(s, if big { 10 } else { 40 }, big);
    let checksum = !s.chance(1, 4);
    cx.start(s, || format!("checksum {}, {}", checksum, describe(&recs)));
    shape(cx, &recs);
    cx.nontrivial_if(!recs.is_empty());
    let (data, _) = log_encode(&recs);
    let mut r = open(data, checksum, 0)?;
    let (got, stop) = read_all(&mut r, recs.len() + 8)?;
    if let Got::Err(e) = &stop { ensure!(got.len() == recs.len(), "format/read-error", "reading a conforming log failed after {} of {} records: {}", got.len(), recs.len(), e); }
    same_records("format/records", "conforming log", &got, &recs)?;
    ensure!(stop == Got::End, "format/end", "after all records: {}", show(&stop));
    Ok(())
}

fn offsets(s: &mut Src, cx: &mut Cx) -> Res {
    let big = s.chance(2, 3);
    let recs = records(s, if big { 10 } else { 30 }, big);
    let checksum = !s.chance(1, 4);
    let (data, spans) = log_encode(&recs);
    let k = s.urange(1, 6);
    let offs: Vec<usize> = (0..k).map(|_| match s.below(4) {
        0 => s.urange(0, data.len()),
        1 if !spans.is_empty() => { let p = s.pick(&spans).clone(); let d = s.range(0, 16) as i64 - 8; (p.start as i64 + d).max(0) as usize }
        2 if !spans.is_empty() => { let p = s.pick(&spans).clone(); let d = s.range(0, 16) as i64 - 8; (p.end as i64 + d).max(0) as usize }
        _ => { let b = s.urange(0, data.len() / BLOCK + 1) * BLOCK; let d = s.range(0, 24) as i64 - 12; (b as i64 + d).max(0) as usize }
    }.min(data.len())).collect();
    cx.start(s, || format!("offsets {:?}, checksum {}, record starts {:?}, {}", offs, checksum, spans.iter().map(|x| x.start).collect::<Vec<_>>(), describe(&recs)));
    shape(cx, &recs);
    cx.evals(offs.len() as u64 - 1);
    for off in offs {
        let want: Vec<Vec<u8>> = spans.iter().zip(&recs).filter(|(p, _)| p.start >= off).map(|(_, r)| r.clone()).collect();
        cx.nontrivial_if(!want.is_empty() && want.len() < recs.len());
        cx.label_if(spans.iter().any(|p| p.start < off && off < p.end), "offset inside a record");
        cx.label_if(spans.iter().any(|p| p.start == off), "offset at a record");
        cx.label_if(BLOCK - off % BLOCK < HEADER, "offset in a block's last 6 bytes");
        let mut r = open(data.clone(), checksum, off)?;
        let (got, stop) = read_all(&mut r, recs.len() + 8)?;
        same_records("offset/records", &format!("reading from offset {}", off), &got, &want)?;
        ensure!(stop == Got::End, "offset/end", "reading from offset {}: after {} records: {}", off, got.len(), show(&stop));
    }
    Ok(())
}

/// A log whose offsets are far away: `front` at position 0, zeros up to `base`, `tail` from there.
struct FarSource { front: Vec<u8>, base: u64, tail: Vec<u8>, pos: u64 }
impl Read for FarSource {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.pos >= self.base {
            let at = ((self.pos - self.base) as usize).min(self.tail.len());
            let n = b.len().min(self.tail.len() - at);
            b[..n].copy_from_slice(&self.tail[at..at + n]);
            self.pos += n as u64;
            return Ok(n);
        }
        let n = (b.len() as u64).min(self.base - self.pos) as usize;
        for (i, x) in b[..n].iter_mut().enumerate() { *x = self.front.get(self.pos as usize + i).copied().unwrap_or(0); }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for FarSource {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let end = (self.base + self.tail.len() as u64) as i128;
        let p = match to { SeekFrom::Start(p) => p as i128, SeekFrom::Current(d) => self.pos as i128 + d as i128, SeekFrom::End(d) => end + d as i128 };
        if p < 0 { return Err(ErrorKind::InvalidInput.into()); }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
impl SeekableReader for FarSource {}

/// Starting offsets of gigabytes: in a log that is that long (only the end of it is stored), and past the end
/// of a short one.
fn far_offsets(s: &mut Src, cx: &mut Cx) -> Res {
    let front = records(s, 4, false);
    let big = s.bool();
    let recs = records(s, 10, big);
    let checksum = !s.chance(1, 4);
    let base = (match s.below(5) { 0 => 1u64 << 31, 1 => 1 << 32, 2 => 1 << s.urange(16, 45), 3 => s.range(1, 1 << 33), _ => s.range(1, 1 << 45) } / BLOCK as u64).max(128) * BLOCK as u64;
    let short = s.chance(1, 4);
    let (fdata, _) = log_encode(&front);
    let (tail, spans) = log_encode(&recs);
    let off = if short { 0 } else { match s.below(3) {
        0 => s.urange(0, tail.len()),
        1 if !spans.is_empty() => { let p = s.pick(&spans).clone(); let d = s.range(0, 16) as i64 - 8; (p.start as i64 + d).max(0) as usize }
        _ => { let b = s.urange(0, tail.len() / BLOCK + 1) * BLOCK; let d = s.range(0, 24) as i64 - 12; (b as i64 + d).max(0) as usize }
    } };
    let back = s.urange(1, 5);
    cx.start(s, || format!("offset {} + {} (or {} before it), checksum {}, {}, {}", base, off, back, checksum, if short { "a short log" } else { "a log of that length" }, describe(&recs)));
    cx.nontrivial_if(!recs.is_empty());
    cx.label_if(base > u32::MAX as u64, "beyond 4 GiB");
    let from = base as usize + off;
    let mk = |base: u64, tail: Vec<u8>| Box::new(FarSource { front: fdata.clone(), base, tail, pos: 0 });
    let want: Vec<Vec<u8>> = if short { vec![] } else { spans.iter().zip(&recs).filter(|(p, _)| p.start >= off).map(|(_, r)| r.clone()).collect() };
    let mut r = must("open", || LogReader::new(if short { mk(0, tail.clone()) } else { mk(base, tail.clone()) }, checksum, from))?;
    let (got, stop) = read_all(&mut r, recs.len() + 8)?;
    same_records("offset/records", &format!("reading from offset {}", from), &got, &want)?;
    ensure!(stop == Got::End, "offset/end", "reading from offset {}: after {} records: {}", from, got.len(), show(&stop));
    if !short && off == 0 {
        // in the last bytes of the block before, too short for a header
        cx.label("in the end of the block before");
        let mut r = must("open", || LogReader::new(mk(base, tail.clone()), checksum, from - back))?;
        let (got, _) = read_all(&mut r, recs.len() + 8)?;
        same_records("offset/records", &format!("reading from offset {}", from - back), &got, &recs)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

fn check_cut(data: &[u8], spans: &[Span], recs: &[Vec<u8>], cut: usize, checksum: bool) -> Res {
    let want: Vec<Vec<u8>> = spans.iter().zip(recs).filter(|(p, _)| p.end <= cut).map(|(_, r)| r.clone()).collect();
    let mut r = open(data[..cut].to_vec(), checksum, 0)?;
    let (got, _) = read_all(&mut r, recs.len() + 8)?;
    same_records("cut/records", &format!("log of {} bytes cut at {} (checksum {})", data.len(), cut, checksum), &got, &want)?;
    for _ in 0..2 {
        let g = next(&mut r)?;
        ensure!(!matches!(g, Got::Rec(_)), "cut/invented", "log of {} bytes cut at {}: after the end: {}", data.len(), cut, show(&g));
    }
    Ok(())
}

fn cuts(s: &mut Src, cx: &mut Cx) -> Res {
    let big = s.chance(2, 3);
    let recs = records(s, if big { 8 } else { 30 }, big);
    let checksum = !s.chance(1, 4);
    let own = s.bool();
    let (refdata, spans) = log_encode(&recs);
    let k = s.urange(1, 12);
    let cuts: Vec<usize> = (0..k).map(|_| match s.below(5) {
        0 => s.urange(0, refdata.len()),
        1 | 2 if !spans.is_empty() => {
            let p = s.pick(&spans).clone();
            let (base, lo, hi) = match s.below(2) { 0 => (p.start as i64, -3, 12), _ => (p.end as i64, -9, 3) };
            (base + lo + s.range(0, (hi - lo) as u64) as i64).max(0) as usize
        }
        _ => { let b = s.urange(0, refdata.len() / BLOCK + 1) * BLOCK; let d = s.range(0, 40) as i64 - 20; (b as i64 + d).max(0) as usize }
    }.min(refdata.len())).collect();
    cx.start(s, || format!("cuts {:?} of {} bytes, checksum {}, own writer {}, {}", cuts, refdata.len(), checksum, own, describe(&recs)));
    shape(cx, &recs);
    cx.evals(k as u64 - 1);
    let data = if own { write_log(&recs)? } else { refdata };
    if own { let (want, _) = log_encode(&recs); ensure!(want.len() == data.len(), "cut/layout", "the written log has {} bytes, expected {}", data.len(), want.len()); }
    for cut in cuts {
        cx.nontrivial_if(spans.iter().any(|p| p.start < cut && cut < p.end));
        cx.label_if(spans.iter().any(|p| p.start < cut && cut < p.start + HEADER), "cut inside a header");
        cx.label_if(spans.iter().any(|p| p.frags > 1 && p.start < cut && cut < p.end), "cut inside a fragmented record");
        cx.label_if(spans.iter().any(|p| p.frags > 1 && p.start < cut && cut < p.end && cut % BLOCK == 0), "cut between fragments");
        cx.label_if(spans.iter().any(|p| p.end == cut), "cut at a record end");
        check_cut(&data, &spans, &recs, cut, checksum)?;
    }
    Ok(())
}

fn long_cuts(s: &mut Src, cx: &mut Cx) -> Res {
    let recs = long_records(s);
    let checksum = s.bool();
    let (data, spans) = log_encode(&recs);
    let k = s.urange(1, 4);
    let cuts: Vec<usize> = (0..k).map(|_| match s.below(3) {
        0 => s.urange(0, data.len()),
        1 => { let p = s.pick(&spans).clone(); let d = s.range(0, 18) as i64 - 9; (p.end as i64 + d).max(0) as usize }
        _ => { let b = s.urange(0, data.len() / BLOCK + 1) * BLOCK; let d = s.range(0, 24) as i64 - 12; (b as i64 + d).max(0) as usize }
    }.min(data.len())).collect();
    cx.start(s, || format!("cuts {:?} of {} bytes, checksum {}, {}", cuts, data.len(), checksum, describe(&recs)));
    shape(cx, &recs);
    cx.evals(k as u64 - 1);
    for cut in cuts {
        cx.nontrivial_if(spans.iter().any(|p| p.start < cut && cut < p.end));
        check_cut(&data, &spans, &recs, cut, checksum)?;
    }
    Ok(())
}

/// Every cut position of a small log, or of the neighbourhood of a block boundary.
fn every_cut(s: &mut Src, cx: &mut Cx) -> Res {
    let around = s.chance(1, 2);
    let mut recs = vec![];
    if around {
        let d = s.urange(0, 30);
        recs.push(vec![b'p'; BLOCK - HEADER - d]);
    }
    let n = s.urange(1, 6);
    for _ in 0..n { let l = s.len(30); recs.push(content(s, l)); }
    let checksum = s.bool();
    cx.start(s, || format!("all cuts, checksum {}, {}", checksum, describe(&recs)));
    shape(cx, &recs);
    cx.nontrivial = true;
    let (data, spans) = log_encode(&recs);
    let from = if around { BLOCK - 60 } else { 0 };
    for cut in from..=data.len() { check_cut(&data, &spans, &recs, cut, checksum)?; }
    cx.evals((data.len() - from) as u64);
    Ok(())
}

// ---------------------------------------------------------------- C04

fn damaged(s: &mut Src, cx: &mut Cx) -> Res {
    let big = s.chance(1, 2);
    let recs = records(s, if big { 8 } else { 20 }, big);
    damage(s, cx, recs)
}
fn long_damage(s: &mut Src, cx: &mut Cx) -> Res { let recs = long_records(s); damage(s, cx, recs) }
fn damage(s: &mut Src, cx: &mut Cx, recs: Vec<Vec<u8>>) -> Res {
    let (data, spans) = log_encode(&recs);
    if data.is_empty() { cx.start(s, || "empty".into()); return Ok(()); }
    let mut bad = data.clone();
    let k = s.urange(1, 3);
    let mut what = vec![];
    for _ in 0..k {
        let at = match s.below(4) {
            0 => s.urange(0, data.len() - 1),
            1 => { let p = s.pick(&spans).clone(); p.start + s.urange(0, 6) }
            2 => { let p = s.pick(&spans).clone(); s.urange(p.start, p.end - 1) }
            _ => { let b = s.urange(0, data.len() / BLOCK) * BLOCK; b + s.urange(0, 12) }
        }.min(data.len() - 1);
        match s.below(6) {
            5 => {
                // part of a fragment's header blank: all its bytes, or some of its fields
                let head = if s.bool() { s.pick(&spans).start } else { s.urange(0, (data.len() - 1) / BLOCK) * BLOCK };
                let from = *s.pick(&[0, 0, 4, 6]);
                let to = *s.pick(&[4usize, 6, 7, 8]).max(&(from + 1));
                let v = *s.pick(&[0u8, 0, 0xff]);
                for i in head + from..(head + to).min(data.len()) { bad[i] = v; }
                what.push(format!("bytes {} to {} of the header at {} := {:#x}", from, to, head, v));
            }
            0 => { let b = s.below(8); bad[at] ^= 1 << b; what.push(format!("bit {} of byte {}", b, at)); }
            1 => { let v = s.u8(); bad[at] = v; what.push(format!("byte {} := {}", at, v)); }
            2 => { let n = s.urange(1, 40).min(data.len() - at); let v = s.u64(); let mut y = v; for i in 0..n { bad[at + i] = splitmix(&mut y) as u8; } what.push(format!("{} random bytes at {}", n, at)); }
            3 => { let n = s.urange(1, 2000).min(data.len() - at); for i in 0..n { bad[at + i] = 0; } what.push(format!("{} zero bytes at {}", n, at)); }
            _ => {
                // plausible header values: type or length of some fragment
                let p = s.pick(&spans).clone();
                if s.bool() { let t = s.below(6) as u8; bad[p.start + 6] = t; what.push(format!("type at {} := {}", p.start, t)); }
                else {
                    let old = data[p.start + 4] as u64 | (data[p.start + 5] as u64) << 8;
                    let v = match s.below(4) { 0 => old + s.range(1, 8), 1 => old.saturating_sub(s.range(1, 8)), 2 => s.below(65536), _ => 65535 };
                    bad[p.start + 4] = v as u8; bad[p.start + 5] = (v >> 8) as u8;
                    what.push(format!("length at {} := {}", p.start, v & 0xffff));
                }
            }
        }
    }
    cx.start(s, || format!("damage [{}] to {} bytes, record starts {:?}, {}", what.join("; "), data.len(), spans.iter().take(60).map(|x| x.start).collect::<Vec<_>>(), describe(&recs)));
    shape(cx, &recs);
    let first_hit = (0..data.len()).find(|i| data[*i] != bad[*i]);
    let hit = spans.iter().position(|p| first_hit.map_or(false, |f| p.start <= f && f < p.end));
    cx.nontrivial_if(hit.is_some());
    cx.label_if(first_hit.is_none(), "damage without effect");
    let intact = match first_hit { None => recs.len(), Some(f) => spans.iter().filter(|p| p.end <= f).count() };
    let mut r = open(bad.clone(), true, 0)?;
    let (got, stop) = read_all(&mut r, bad.len() / HEADER + 16)?;
    // prefix property, and everything before the damage is still there
    for (i, g) in got.iter().enumerate() {
        ensure!(recs.get(i) == Some(g), "damage/returned", "record {} read from the damaged log is {}, written was {} (damage: {})", i, hex(g),
            recs.get(i).map(|x| hex(x)).unwrap_or("nothing".into()), what.join("; "));
    }
    ensure!(got.len() >= intact, "damage/lost-before", "{} records lie before the damage ({}) but only {} were returned before {}", intact, what.join("; "), got.len(), show(&stop));
    // reading on after a reported error never yields anything that was not written, and ends
    let mut last = got.len();
    let mut calls = 0usize;
    let mut g = stop;
    let mut all = got.clone();
    cx.label_if(matches!(g, Got::Err(_)), "error reported");
    while g != Got::End {
        calls += 1;
        ensure!(calls <= bad.len() / HEADER + 64, "damage/endless", "reading a log of {} bytes did not end after {} calls", bad.len(), calls);
        g = next(&mut r)?;
        if let Got::Rec(x) = &g {
            cx.label("records after the error");
            match recs[last..].iter().position(|y| y == x) {
                Some(k) => last += k + 1,
                None => return fail("damage/returned-later", format!("after reporting an error the reader returned {}, which was not written (at that place) (damage: {})", hex(x), what.join("; "))),
            }
            all.push(x.clone());
        }
    }
    // what shares no block with the damage is returned
    let mut at = 0;
    for (i, (p, x)) in spans.iter().zip(&recs).enumerate() {
        let (from, to) = (p.start / BLOCK * BLOCK, ((p.end - 1) / BLOCK + 1) * BLOCK);
        let to = to.min(data.len());
        if data[from..to] != bad[from..to] { continue; }
        match all[at..].iter().position(|y| y == x) {
            Some(k) => at += k + 1,
            None => return fail("damage/lost-elsewhere", format!("record {} ({}) shares no block with the damage but is not returned (damage: {})", i, hex(x), what.join("; "))),
        }
        if first_hit.map_or(false, |f| p.start > f) { cx.label("record in a block after the damaged ones"); }
    }
    // without verification nothing is promised about content, but it must not crash and must end
    let mut r = open(bad.clone(), false, 0)?;
    let mut calls = 0;
    while next(&mut r)? != Got::End {
        calls += 1;
        ensure!(calls <= bad.len() / HEADER + 64, "damage/endless", "reading without verification did not end after {} calls", calls);
    }
    Ok(())
}

fn arbitrary(s: &mut Src, cx: &mut Cx) -> Res {
    let checksum = s.bool();
    let mut data: Vec<u8> = vec![];
    let mut kinds = vec![];
    let n = s.urange(0, 12);
    for _ in 0..n {
        match s.below(7) {
            0 => data.extend(s.blob(100)),
            1 => { let l = s.urange(0, 3000); data.extend(vec![0u8; l]); kinds.push("zeros"); }
            2 | 3 => { let ty = s.below(7) as u8; let l = s.len(300); let b = content(s, l); log_fragment(&mut data, ty, &b); kinds.push("valid fragment of any type"); }
            4 => { let ty = s.below(7) as u8; let l = s.below(65536); let mut h = vec![1, 2, 3, 4, l as u8, (l >> 8) as u8, ty]; if s.bool() { let c = s.u32(); h[..4].copy_from_slice(&c.to_le_bytes()); } data.extend(h); kinds.push("header"); }
            5 => { let t = s.urange(0, 20); let goal = (data.len() / BLOCK + 1) * BLOCK - t; if goal > data.len() { let ty = s.below(6) as u8; let l = (goal - data.len()).saturating_sub(HEADER); log_fragment(&mut data, ty, &vec![b'f'; l]); } kinds.push("fill to block end"); }
            _ => { let l = s.urange(0, 40000); data.extend(vec![0xffu8; l]); kinds.push("ones"); }
        }
    }
    let off = if s.chance(1, 4) { s.urange(0, data.len() + 40000) } else { 0 };
    cx.start(s, || format!("checksum {}, offset {}, {} bytes of {:?}: {}", checksum, off, data.len(), kinds, hex(&data)));
    cx.nontrivial_if(data.len() >= HEADER);
    let mut r = open(data.clone(), checksum, off)?;
    let mut calls = 0;
    let mut total = 0;
    loop {
        match next(&mut r)? { Got::End => break, Got::Rec(x) => { total += x.len(); cx.label("record returned"); } Got::Err(_) => cx.label("error returned") }
        calls += 1;
        ensure!(calls <= data.len() / HEADER + 64, "arbitrary/endless", "reading {} arbitrary bytes did not end after {} calls", data.len(), calls);
    }
    ensure!(total <= data.len(), "arbitrary/invented", "{} payload bytes were returned from a file of {}", total, data.len());
    Ok(())
}

/// What a log reader must make of a sequence of individually valid fragments (every checksum right): an
/// independent model of reassembly. Any record returned must be a contiguous FIRST MIDDLE* LAST or a FULL.
fn fragments(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 14);
    let frags: Vec<(u8, Vec<u8>)> = (0..n).map(|i| {
        let ty = *s.pick(&[1u8, 2, 3, 4, 2, 4]);
        let l = s.len(20);
        let mut b = vec![b'a' + i as u8; l];
        if l > 0 { b[0] = i as u8; }
        (ty, b)
    }).collect();
    let checksum = s.bool();
    cx.start(s, || format!("checksum {}, fragments {:?}", checksum, frags.iter().map(|(t, b)| (["?", "FULL", "FIRST", "MIDDLE", "LAST"][*t as usize], b.len())).collect::<Vec<_>>()));
    let mut data = vec![];
    for (t, b) in &frags { log_fragment(&mut data, *t, b); }
    // allowed records
    let mut allowed: Vec<(usize, Vec<u8>)> = vec![]; // (index of last fragment, bytes)
    let mut broken = None; // index of the fragment at which the sequence stops being well formed
    let mut cur: Option<Vec<u8>> = None;
    for (i, (t, b)) in frags.iter().enumerate() {
        match (t, cur.take()) {
            (1, None) => allowed.push((i, b.clone())),
            (2, None) => cur = Some(b.clone()),
            (1, Some(_)) => { broken = broken.or(Some(i)); allowed.push((i, b.clone())) }
            (2, Some(_)) => { broken = broken.or(Some(i)); cur = Some(b.clone()) }
            (3, Some(mut c)) => { c.extend(b); cur = Some(c) }
            (4, Some(mut c)) => { c.extend(b); allowed.push((i, c)) }
            (_, None) => broken = broken.or(Some(i)),
            _ => unreachable!(),
        }
    }
    cx.label_if(broken.is_some(), "ill-formed sequence");
    cx.nontrivial_if(broken.is_some() || !allowed.is_empty());
    let mut r = open(data, checksum, 0)?;
    let (got, stop) = read_all(&mut r, n + 4)?;
    let before: Vec<Vec<u8>> = allowed.iter().filter(|(i, _)| broken.map_or(true, |b| *i < b)).map(|(_, x)| x.clone()).collect();
    same_records("fragments/records", "well-formed part", &got, &before)?;
    if broken.is_some() { ensure!(matches!(stop, Got::Err(_)), "fragments/no-error", "fragment {} breaks the sequence but the reader reported {}", broken.unwrap(), show(&stop)); }
    else { ensure!(stop == Got::End, "fragments/end", "well-formed fragments but the reader reported {}", show(&stop)); }
    // later records: only complete ones, in order
    let mut g = stop;
    let mut at = got.len();
    let mut calls = 0;
    while g != Got::End {
        calls += 1;
        ensure!(calls < 4 * n + 40, "fragments/endless", "no end after {} calls", calls);
        g = next(&mut r)?;
        if let Got::Rec(x) = &g {
            match allowed[at..].iter().position(|(_, y)| y == x) {
                Some(k) => at += k + 1,
                None => return fail("fragments/invented", format!("after an error the reader returned {}, which is no complete record", hex(x))),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

const KINDS: [ErrorKind; 16] = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::TimedOut,
    ErrorKind::WriteZero, ErrorKind::InvalidData, ErrorKind::InvalidInput, ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::AlreadyExists,
    ErrorKind::ConnectionReset, ErrorKind::StorageFull, ErrorKind::OutOfMemory, ErrorKind::Unsupported, ErrorKind::AddrInUse];

fn acts(s: &mut Src, max: usize, fatal: bool) -> Vec<Act> {
    let n = s.urange(0, max);
    let mut fatal_left = fatal;
    (0..n).map(|_| match s.weighted(&[4, 4, 2, if fatal_left { 2 } else { 0 }]) {
        0 => Act::All,
        1 => Act::Short(s.len(40000).max(1)),
        2 => Act::Intr,
        _ => { fatal_left = false; if s.below(4) == 0 { Act::Zero } else { Act::Fail(*s.pick(&KINDS)) } }
    }).collect()
}

fn sink_faults(s: &mut Src, cx: &mut Cx) -> Res {
    let big = s.chance(1, 3);
    let most = if big { 6 } else if s.chance(1, 6) { 80 } else { 12 };
    let recs = records(s, most, big);
    let fatal = s.chance(1, 2);
    let plan = { let m = if s.chance(1, 6) { 200 } else { 40 }; acts(s, m, fatal) };
    let ff = if s.chance(1, 4) { Some((if s.bool() { s.range(1, 12) } else { s.range(1, 60) }, if s.chance(1, 5) { ErrorKind::Interrupted } else { *s.pick(&KINDS) })) } else { None };
    cx.start(s, || format!("writes {:?}, flush fails at {:?}, {}", plan, ff, describe(&recs)));
    cx.label_if(plan.iter().any(|a| matches!(a, Act::Short(_))), "short write");
    cx.label_if(plan.iter().any(|a| matches!(a, Act::Intr)), "interrupted write");
    cx.nontrivial_if(!recs.is_empty() && (plan.iter().any(|a| !matches!(a, Act::All)) || ff.is_some()));
    let sink = Sink::default();
    { let mut p = sink.1.borrow_mut(); p.write = plan; p.flush_fail_at = ff; }
    let mut w = LogWriter::new(Box::new(sink.clone()));
    for i in 0..recs.len() {
        let r = must("append", || w.add_record(Slice::from_buf(&recs[i])))?;
        let st = sink.0.borrow();
        match r {
            Ok(()) => {
                ensure!(!st.failed, "sink/error-swallowed", "the sink failed while record {} was appended, but the append returned success", i);
                let (want, _) = log_encode(&recs[..=i]);
                ensure!(st.data == want, "sink/bytes", "record {} was acknowledged but the sink holds {} bytes (fnv {:x}) instead of the {} expected", i, st.data.len(), fnv(&st.data), want.len());
                ensure!(st.flushed == st.data.len(), "sink/not-flushed", "record {} was acknowledged with {} of {} bytes flushed", i, st.flushed, st.data.len());
            }
            Err(e) => {
                ensure!(st.failed || st.flush_interrupted, "sink/spurious-error", "appending record {} failed ({}) although the sink never failed", i, e.to_string());
                cx.label("append failed");
                let (want, _) = log_encode(&recs[..=i]);
                ensure!(st.data.len() <= want.len() && st.data[..] == want[..st.data.len()], "sink/garbage", "after the failed append of record {} the sink does not hold a prefix of the log", i);
                drop(st);
                return after_failure(&mut w, &sink, &recs[i + 1..], cx);
            }
        }
    }
    Ok(())
}

/// Appends behind a failed one may be refused, or go to a log whose blocks no longer line up. But success still
/// means that every byte went to the sink and was flushed.
fn after_failure(w: &mut LogWriter, sink: &Sink, recs: &[Vec<u8>], cx: &mut Cx) -> Res {
    for (i, rec) in recs.iter().enumerate() {
        let start = { let mut st = sink.0.borrow_mut(); st.flushed = usize::MAX; st.failed = false; st.data.len() };
        let r = must("append", || w.add_record(Slice::from_buf(rec)))?;
        let st = sink.0.borrow();
        if r.is_err() { cx.label("append refused after a failure"); continue; }
        cx.label("append succeeds after a failure");
        ensure!(!st.failed, "sink/error-swallowed", "the sink failed during append {} after a failed one, but the append returned success", i);
        ensure!(st.flushed == st.data.len(), "sink/not-flushed", "append {} after a failed one succeeded with {} of {} bytes flushed", i, st.flushed, st.data.len());
        let mut new = st.data[start.min(st.data.len())..].iter();
        ensure!(st.data.len() >= start + rec.len() && rec.iter().all(|b| new.any(|c| c == b)), "sink/bytes", "append {} after a failed one succeeded, but the sink did not get its {} bytes in order", i, rec.len());
    }
    Ok(())
}

fn source_faults(s: &mut Src, cx: &mut Cx) -> Res {
    let big = s.chance(2, 3);
    let recs = records(s, if big { 8 } else { 20 }, big);
    let nch = s.urange(1, 6);
    let chunk: Vec<usize> = (0..nch).map(|_| s.len(40000).max(1)).collect();
    // at least one chunk size that lets the test finish quickly
    let chunk: Vec<usize> = if chunk.iter().all(|c| *c < 64) && big { let mut c = chunk; c.push(5000); c } else { chunk };
    let intr = if s.chance(1, 3) { s.range(2, 5) } else { 0 };
    let fail_at = if s.chance(1, 2) { Some((if s.bool() { s.urange(1, 12) } else { s.urange(1, 120) }, s.bool(), *s.pick(&KINDS))) } else { None };
    let checksum = s.bool();
    cx.start(s, || format!("chunks {:?}, interrupted every {}, error at {:?}, {}", chunk, intr, fail_at, describe(&recs)));
    shape(cx, &recs);
    cx.nontrivial_if(!recs.is_empty());
    let (data, _) = log_encode(&recs);
    let fired = Rc::new(RefCell::new(false));
    let src = Source { data: Rc::new(data), pos: 0, chunk, calls: 0, intr, fail_at, fired: fired.clone() };
    let mut r = must("open", || LogReader::new(Box::new(src), checksum, 0))?;
    let mut got = vec![];
    loop {
        let before = *fired.borrow();
        let g = next(&mut r)?;
        let now = *fired.borrow();
        if now && !before {
            cx.label("read error injected");
            ensure!(matches!(g, Got::Err(_)), "source/error-hidden", "the underlying read failed after {} records, but the reader returned {}", got.len(), show(&g));
            for (i, x) in got.iter().enumerate() { ensure!(recs.get(i) == Some(x), "source/records", "record {} is {}", i, hex(x)); }
            // whatever follows is still only what was written
            let mut at = got.len();
            for _ in 0..recs.len() + 4 {
                match next(&mut r)? {
                    Got::Rec(x) => match recs[at..].iter().position(|y| *y == x) {
                        Some(k) => at += k + 1,
                        None => return fail("source/invented", format!("after a read error the reader returned {}, which was not written", hex(&x))),
                    },
                    Got::End => break,
                    Got::Err(_) => {}
                }
            }
            return Ok(());
        }
        match g {
            Got::Rec(x) => { got.push(x); ensure!(got.len() <= recs.len(), "source/records", "more records than written"); }
            Got::End => break,
            Got::Err(e) => return fail("source/spurious-error", format!("reading in chunks failed after {} of {} records: {}", got.len(), recs.len(), e)),
        }
    }
    same_records("source/records", "log read in chunks", &got, &recs)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: "roundtrip: at least two records, at least one of them not empty; boundary: every case (three records, the first ending 0..40 bytes before a block end); long_log: at least two records", assumptions: &["log files up to about 40 MB"],
            subs: vec![Sub { name: "roundtrip", quick: 6000, thorough: 300000, run: roundtrip }, Sub { name: "boundary", quick: 2500, thorough: 100000, run: boundary }, Sub { name: "long_log", quick: 150, thorough: 6000, run: long_log }] },
        Prop { id: "C02", rule: "writer_bytes, foreign: at least one record; long_format: at least two records; offsets: some but not all records begin at or after the offset; far_offsets: at least one record", assumptions: &["reference log codec in harness/src/refs.rs written from the LevelDB log format document"],
            subs: vec![Sub { name: "writer_bytes", quick: 5000, thorough: 250000, run: writer_bytes }, Sub { name: "foreign", quick: 4000, thorough: 200000, run: foreign }, Sub { name: "offsets", quick: 5000, thorough: 250000, run: offsets }, Sub { name: "far_offsets", quick: 3000, thorough: 150000, run: far_offsets }, Sub { name: "long_format", quick: 100, thorough: 5000, run: long_format }] },
        Prop { id: "C03", rule: "cuts, long_cuts: at least one cut strictly inside a record; every_cut: every case (all cut positions of a small log, or all around a block boundary)", assumptions: &["a crash truncates the file and does not reorder or corrupt what is before the cut"],
            subs: vec![Sub { name: "cuts", quick: 5000, thorough: 250000, run: cuts }, Sub { name: "every_cut", quick: 800, thorough: 30000, run: every_cut }, Sub { name: "long_cuts", quick: 100, thorough: 5000, run: long_cuts }] },
        Prop { id: "C04", rule: "damaged, long_damage: the first altered byte lies inside a record; arbitrary: at least one header's worth of bytes; fragments: the sequence is ill formed or contains a record", assumptions: &["random damage does not hit a 32-bit checksum collision (probability about 2^-32 per altered fragment)"],
            subs: vec![Sub { name: "damaged", quick: 8000, thorough: 400000, run: damaged }, Sub { name: "long_damage", quick: 100, thorough: 5000, run: long_damage }, Sub { name: "arbitrary", quick: 6000, thorough: 300000, run: arbitrary }, Sub { name: "fragments", quick: 10000, thorough: 500000, run: fragments }] },
        Prop { id: "C05", rule: "sink_faults: at least one record and one injected short, interrupted or failing call; source_faults: at least one record", assumptions: &["Write and Read obey their contracts (they report how many bytes they took or delivered)"],
            subs: vec![Sub { name: "sink_faults", quick: 8000, thorough: 400000, run: sink_faults }, Sub { name: "source_faults", quick: 5000, thorough: 250000, run: source_faults }] },
    ]
}
