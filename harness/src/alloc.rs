//! Checking allocator. Sits in front of the system allocator (which AddressSanitizer intercepts) and
//! records every live block with its layout, so that it notices what ASan does not: freeing with a layout
//! other than the one allocated with, freeing a pointer that is no block, zero-size requests, and blocks
//! or bytes that outlive a case (leak accounting, per thread).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};

pub struct CheckAlloc;

const SHARDS: usize = 64;
const SLOTS: usize = 1 << 15; // per shard
/// 1.5 GiB; a case about huge allocations that it never touches raises it for as long as it runs.
/// What earlier failed cases of this process left behind: their failure is reported already.
static FORGIVEN: AtomicI64 = AtomicI64::new(0);
/// Called after a case that failed; gives the number of bytes now written off.
pub fn forgive() -> i64 {
    let live = LIVE_BYTES.load(Ordering::Relaxed);
    FORGIVEN.store(live, Ordering::Relaxed);
    live
}
pub static LIVE_LIMIT: AtomicI64 = AtomicI64::new(DEFAULT_LIMIT);
pub const DEFAULT_LIMIT: i64 = 3 << 29;

#[derive(Clone, Copy)]
struct Slot { ptr: usize, size: usize, align: usize }

struct Shard { lock: AtomicBool, n: usize, slots: [Slot; SLOTS] }

static mut TABLE: [Shard; SHARDS] =
    [const { Shard { lock: AtomicBool::new(false), n: 0, slots: [Slot { ptr: 0, size: 0, align: 0 }; SLOTS] } }; SHARDS];

pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
static LOST: AtomicUsize = AtomicUsize::new(0); // blocks not recorded because a shard was full

thread_local! {
    static T_BLOCKS: Cell<i64> = const { Cell::new(0) };
    static T_BYTES: Cell<i64> = const { Cell::new(0) };
}

/// Net blocks / bytes allocated minus freed by this thread since it started.
pub fn thread_live() -> (i64, i64) { (T_BLOCKS.with(|c| c.get()), T_BYTES.with(|c| c.get())) }

fn die(msg: &str, a: usize, b: usize, c: usize, d: usize) -> ! {
    use std::io::Write;
    let mut buf = [0u8; 256];
    let mut cur = std::io::Cursor::new(&mut buf[..]);
    let _ = write!(cur, "ERROR: VerifAlloc: {} ({:#x},{:#x},{:#x},{:#x})\n", msg, a, b, c, d);
    let n = cur.position() as usize;
    unsafe {
        libc::write(2, buf.as_ptr() as *const _, n);
        libc::_exit(98)
    }
}

fn hash(p: usize) -> usize { (p >> 3).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 12 }

fn with_shard<R>(p: usize, f: impl FnOnce(&mut Shard, usize) -> R) -> R {
    let h = hash(p);
    unsafe {
        let s = &mut *std::ptr::addr_of_mut!(TABLE[h % SHARDS]);
        while s.lock.swap(true, Ordering::Acquire) { std::hint::spin_loop(); }
        let r = f(s, (h / SHARDS) % SLOTS);
        s.lock.store(false, Ordering::Release);
        r
    }
}

fn insert(p: usize, size: usize, align: usize) {
    with_shard(p, |s, mut i| {
        if s.n > SLOTS * 7 / 8 { LOST.fetch_add(1, Ordering::Relaxed); return; }
        while s.slots[i].ptr != 0 { i = (i + 1) % SLOTS; }
        s.slots[i] = Slot { ptr: p, size, align };
        s.n += 1;
    })
}

fn remove(p: usize) -> Option<(usize, usize)> {
    with_shard(p, |s, mut i| {
        while s.slots[i].ptr != p {
            if s.slots[i].ptr == 0 { return None; }
            i = (i + 1) % SLOTS;
        }
        let r = (s.slots[i].size, s.slots[i].align);
        // backward-shift deletion
        let mut hole = i;
        let mut j = i;
        loop {
            j = (j + 1) % SLOTS;
            if s.slots[j].ptr == 0 { break; }
            let home = (hash(s.slots[j].ptr) / SHARDS) % SLOTS;
            let dist = (j + SLOTS - home) % SLOTS;
            let gap = (j + SLOTS - hole) % SLOTS;
            if dist >= gap { s.slots[hole] = s.slots[j]; hole = j; }
        }
        s.slots[hole] = Slot { ptr: 0, size: 0, align: 0 };
        s.n -= 1;
        Some(r)
    })
}

fn account(blocks: i64, bytes: i64) {
    let _ = T_BLOCKS.try_with(|c| c.set(c.get() + blocks));
    let _ = T_BYTES.try_with(|c| c.set(c.get() + bytes));
    let live = LIVE_BYTES.fetch_add(bytes, Ordering::Relaxed) + bytes;
    if bytes > 0 && live - FORGIVEN.load(Ordering::Relaxed) > LIVE_LIMIT.load(Ordering::Relaxed) { die("live-memory budget exceeded", live as usize, bytes as usize, 0, 0); }
}

fn check_free(p: usize, l: Layout) {
    match remove(p) {
        Some((size, align)) => {
            if size != l.size() { die("block freed with a different size than it was allocated with", size, l.size(), align, l.align()); }
            if align != l.align() { die("block freed with a different alignment than it was allocated with", size, l.size(), align, l.align()); }
        }
        None => {
            if LOST.load(Ordering::Relaxed) == 0 { die("free of a pointer that is not a live block", p, l.size(), l.align(), 0); }
        }
    }
}

/// Blocks of this size come straight from the kernel: AddressSanitizer would fill them and their shadow.
const HUGE: usize = 256 << 20;
struct Backend;
impl Backend {
    unsafe fn huge(l: Layout) -> bool { l.size() >= HUGE && l.align() <= 4096 }
    unsafe fn alloc(l: Layout) -> *mut u8 {
        if !Self::huge(l) { return System.alloc(l); }
        let p = libc::mmap(std::ptr::null_mut(), l.size(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if p == libc::MAP_FAILED { std::ptr::null_mut() } else { p as *mut u8 }
    }
    unsafe fn alloc_zeroed(l: Layout) -> *mut u8 { if Self::huge(l) { Self::alloc(l) } else { System.alloc_zeroed(l) } }
    unsafe fn dealloc(p: *mut u8, l: Layout) { if Self::huge(l) { libc::munmap(p as *mut _, l.size()); } else { System.dealloc(p, l) } }
    unsafe fn realloc(p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let n = Layout::from_size_align_unchecked(new, l.align());
        if !Self::huge(l) && !Self::huge(n) { return System.realloc(p, l, new); }
        let q = Self::alloc(n);
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, new.min(l.size())); Self::dealloc(p, l); }
        q
    }
}

thread_local! { static JITTER: Cell<(u64, u32)> = const { Cell::new((0, 0)) }; }
/// From here on one in `every` of this thread's allocations and releases waits for some microseconds, now and
/// then by giving up the processor (0: none). Library code that is split up by an allocation is so interrupted there.
pub fn jitter(seed: u64, every: u32) { JITTER.with(|j| j.set((seed | 1, every))) }
#[inline]
pub fn interrupt() {
    let _ = JITTER.try_with(|j| {
        let (mut x, every) = j.get();
        if every == 0 { return; }
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        j.set((x, every));
        if (x >> 33) % every as u64 != 0 { return; }
        match (x >> 20) % 32 {
            0 => unsafe { libc::usleep((x >> 25) as u32 % 20 + 1); },
            1 => unsafe { libc::sched_yield(); },
            _ => for _ in 0..(x >> 25) % 600 { std::hint::spin_loop(); },
        }
    });
}

unsafe impl GlobalAlloc for CheckAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        interrupt();
        if l.size() == 0 { die("zero-size allocation", 0, l.align(), 0, 0); }
        if l.size() as i64 > LIVE_LIMIT.load(Ordering::Relaxed) { die("single allocation over the memory budget", l.size(), 0, 0, 0); }
        let p = Backend::alloc(l);
        if !p.is_null() { insert(p as usize, l.size(), l.align()); account(1, l.size() as i64); }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 { die("zero-size allocation", 0, l.align(), 0, 0); }
        if l.size() as i64 > LIVE_LIMIT.load(Ordering::Relaxed) { die("single allocation over the memory budget", l.size(), 0, 0, 0); }
        let p = Backend::alloc_zeroed(l);
        if !p.is_null() { insert(p as usize, l.size(), l.align()); account(1, l.size() as i64); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        interrupt();
        check_free(p as usize, l);
        account(-1, -(l.size() as i64));
        Backend::dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new == 0 { die("zero-size reallocation", p as usize, 0, 0, 0); }
        if new as i64 > LIVE_LIMIT.load(Ordering::Relaxed) { die("single allocation over the memory budget", new, 0, 0, 0); }
        check_free(p as usize, l);
        let q = Backend::realloc(p, l, new);
        if !q.is_null() { insert(q as usize, new, l.align()); account(0, new as i64 - l.size() as i64); }
        else { insert(p as usize, l.size(), l.align()); }
        q
    }
}
