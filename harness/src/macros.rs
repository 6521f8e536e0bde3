//! C32: the procedural macros. Cases are invocations in generated programs, which are compiled against the
//! macro crate and run; an invocation that must be refused is a program of its own.
use crate::engine::*;
use crate::worker::case_seed;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const ID: &str = "C32";
const RULE: &str = "at least two elements, or a length that has to be refused, or a pointer expression with a side effect";

struct Case { body: String, alone: bool, nontrivial: bool, labels: Vec<String>, elements: usize }

const PRELUDE: &str = r#"#![allow(warnings)]
use custom_proc_macro::{arr, non_null_new_uncheck};
use std::cell::{Cell, RefCell};
type R = Result<(), String>;
fn next(c: &mut u32) -> u32 { *c += 1; *c }
struct D<'a> { id: u32, drops: &'a RefCell<Vec<u32>> }
impl<'a> D<'a> { fn new(c: &mut u32, drops: &'a RefCell<Vec<u32>>) -> D<'a> { *c += 1; D { id: *c, drops } } }
impl<'a> Drop for D<'a> { fn drop(&mut self) { self.drops.borrow_mut().push(self.id); } }
struct P { a: u32, b: String }
struct Q<T> { inner: T, tail: u8 }
macro_rules! elem { ($i:expr, $c:expr, $d:expr) => { ($i as usize, $c as u64, $d as u64) } }
macro_rules! elem_id { ($i:expr, $c:expr, $d:expr) => { Box::new(($i as u64) * 3 + $c as u64) } }
mod inner { macro_rules! nested { ($i:expr, $c:expr, $d:expr) => { vec![$d as u64; $i as usize] } } pub(crate) use nested; }
fn take<T>(x: T) -> T { x }
fn len_of<T>(x: &[T]) -> usize { x.len() }
struct Holder { p: *mut u32, calls: Cell<u32> }
impl Holder { fn get(&mut self) -> *mut u32 { self.p } fn count(&self) -> *mut u32 { self.calls.set(self.calls.get() + 1); self.p } }
fn point<T>(p: *mut T, calls: &Cell<u32>) -> *mut T { calls.set(calls.get() + 1); p }
macro_rules! elem_log { ($i:expr, $c:expr, $d:expr) => {{ $c.borrow_mut().push($i as usize); let len = $c.borrow().len(); $d + len }} }
thread_local! { static TICKS: Cell<u32> = Cell::new(0); }
fn tick() -> u32 { TICKS.with(|t| { t.set(t.get() + 1); t.get() }) }
const KONST: u64 = 77;
static STATIC: [u8; 3] = [4, 5, 6];
const NOCOPY: Option<Box<u8>> = None;
const fn twice(x: u32) -> u32 { x * 2 }
fn odd(c: &mut u32, end: u32) -> R2 { *c += 1; if *c > end { Err(String::from("the end")) } else { Ok(*c) } }
type R2 = Result<u32, String>;
struct G<T>(T);
impl<T: Default> G<T> { fn four() -> [T; 4] { arr!([T::default(); 4]) } }
#[derive(Default, Clone, Copy, PartialEq)] enum E { #[default] One, Two(u8) }
"#;

fn literal(s: &mut Src, n: usize) -> String {
    match s.below(9) {
        0 => format!("0x{:x}", n),
        1 => format!("0b{:b}", n),
        2 => format!("0o{:o}", n),
        3 => format!("{}usize", n),
        4 => format!("{}_usize", n),
        5 => { let t = n.to_string(); if t.len() > 1 { format!("{}_{}", &t[..1], &t[1..]) } else { format!("{}_", t) } }
        6 => format!("0{}", n),
        _ => n.to_string(),
    }
}

fn length(s: &mut Src) -> usize {
    match s.weighted(&[60, 30, 20, 20, 10, 1, 1]) { 0 => s.idx(9), 1 => s.idx(41), 2 => (1usize << s.idx(9)) + s.idx(3) - 1, 3 => 32, 4 => s.idx(700), 5 => 700 + s.idx(3600), _ => (1usize << (10 + s.idx(3))) + s.idx(3) - 1 }
}

/// One invocation; the body returns Err with a message if the result is not what it has to be.
fn case(s: &mut Src) -> Case {
    match s.weighted(&[16, 3, 1]) { 0 => array(s), 1 => pointer(s), _ => refused(s) }
}

fn array(s: &mut Src) -> Case {
    let kind = s.below(48);
    let n = length(s);
    let lit = literal(s, n);
    let k = s.below(100);
    let t = s.text(6);
    let form = s.below(7);
    let e = |setup: &str, expr: String, ok: &str| (setup.to_string(), expr, ok.to_string());
    // setup, element, whether the element x at index i is right
    let (setup, expr, ok) = match kind {
        0 => e("", format!("{}u32", k), &format!("*x == {}u32", k)),
        47 => e("", "0".into(), "true"),
        1 => e("let mut c = 0u32;", "{ c += 1; c }".into(), "*x == i as u32 + 1"),
        2 => e("let mut c = 0u32;", "next(&mut c)".into(), "*x == i as u32 + 1"),
        3 => e("", format!("String::from({:?})", t), &format!("x == {:?}", t)),
        4 => e("let mut c = 0u32;", "Box::new(next(&mut c))".into(), "**x == i as u32 + 1"),
        5 => e("", format!("vec![{}u8; {}]", k, k % 7), &format!("x == &vec![{}u8; {}]", k, k % 7)),
        6 => e("let mut c = 0u32;", format!("P {{ a: next(&mut c), b: format!(\"{{}}-{}\", c) }}", k), &format!("x.a == i as u32 + 1 && x.b == format!(\"{{}}-{}\", i + 1)", k)),
        7 => e("let mut c = 0u32;", format!("({}, next(&mut c), {:?})", k, t), &format!("x.0 == {} && x.1 == i as u32 + 1 && x.2 == {:?}", k, t)),
        8 => e("let mut c = 0u32;", format!("next(&mut c) * 2 + {}", k), &format!("*x == (i as u32 + 1) * 2 + {}", k)),
        9 => e("let mut c = 0u32;", "match next(&mut c) % 3 { 0 => 'a', 1 => 'b', _ => 'c' }".into(), "*x == ['b', 'c', 'a'][i % 3]"),
        10 => e("let mut c = 0u32;", format!("if next(&mut c) > {} {{ Some(c) }} else {{ None }}", k % 20), &format!("*x == if i as u32 + 1 > {} {{ Some(i as u32 + 1) }} else {{ None }}", k % 20)),
        11 => e(&format!("let capacity = {}u64; let default_length = {}u64;", k, k + 1), "elem".into(), &format!("*x == (i, {}u64, {}u64)", k, k + 1)),
        12 => e(&format!("let capacity = {}u64; let default_length = {}u64;", k, k + 1), "elem_id".into(), &format!("**x == i as u64 * 3 + {}", k)),
        13 => e(&format!("let capacity = {}u64; let default_length = {}u64;", k, k + 1), "inner::nested".into(), &format!("x == &vec![{}u64; i]", k + 1)),
        14 => e("let mut c = 0u32;", format!("arr!([next(&mut c); {}])", 1 + k % 4), &format!("x.iter().enumerate().all(|(j, y)| *y == (i * {} + j) as u32 + 1) && x.len() == {}", 1 + k % 4, 1 + k % 4)),
        15 => e(&format!("let base = {}i64;", k), "-base as i32".into(), &format!("*x == -{}i32", k)),
        16 => e("let mut c = 0u32;", format!("next(&mut c)..{}", k + 1000), &format!("*x == (i as u32 + 1..{})", k + 1000)),
        17 => e("let v = vec![5u8, 6, 7];", format!("&v[{}..]", k % 4), &format!("*x == &[5u8, 6, 7][{}..]", k % 4)),
        18 => e("let mut c = 0u32;", format!("(|a: u32| a + {})(next(&mut c))", k), &format!("*x == i as u32 + 1 + {}", k)),
        19 => e("", "Vec::<u8>::new()".into(), "x.is_empty()"),
        20 => e("let mut c = 0u32;", "Q { inner: Q { inner: next(&mut c), tail: 1 }, tail: 2 }.inner.inner".into(), "*x == i as u32 + 1"),
        21 => e("let mut c = 0u32;", format!("loop {{ c += 1; if c % 2 == {} {{ break c; }} }}", k % 2), &format!("*x == 2 * i as u32 + {}", if k % 2 == 1 { 1 } else { 2 })),
        24 => e(&format!("let v = String::from({:?}); let r = &v;", t), "(r)".into(), &format!("x == &&String::from({:?})", t)),
        25 => e("", "(KONST)".into(), "*x == KONST"),
        26 => e("TICKS.with(|t| t.set(0));", "tick()".into(), "*x == i as u32 + 1"),
        27 => e(&format!("let mut it = 0..{}u32;", n + 3), "it.next().unwrap()".into(), "*x == i as u32"),
        28 => e(&format!("let mut v: Vec<Box<usize>> = (0..{}).map(Box::new).collect();", n), "v.pop().unwrap()".into(), &format!("**x == {} - i", n.max(1) - 1)),
        29 => e("let mut c = 0u32;", "c += 1".into(), "*x == ()"),
        30 => e("let mut c = 0u32;", format!("[next(&mut c), {}]", k), &format!("x == &[i as u32 + 1, {}]", k)),
        31 => e("", "[NOCOPY, NOCOPY]".into(), "x.len() == 2 && x[0].is_none()"),
        32 => e(&format!("let log: RefCell<Vec<usize>> = RefCell::new(vec![]); let capacity = &log; let default_length = {}usize;", k), "elem_log".into(), &format!("*x == {} + i + 1 && log.borrow()[i] == i && log.borrow().len() == {}", k, n)),
        33 => e("let mut c = 0u32;", format!("odd(&mut c, {})?", n), "*x == i as u32 + 1"),
        34 => e("let mut c = 0u32;", format!("'l: {{ if next(&mut c) % 3 == 0 {{ break 'l {}; }} c + 1 }}", k), &format!("*x == if (i as u32 + 1) % 3 == 0 {{ {} }} else {{ i as u32 + 2 }}", k)),
        35 => e("let mut c = 0u32;", format!("{{ fn own(c: &mut u32) -> u32 {{ *c += 1; *c + {} }} own(&mut c) }}", k), &format!("*x == i as u32 + 1 + {}", k)),
        36 => e("let mut v = vec![9u8]; let p = v.as_mut_ptr();", "unsafe { *p = (*p).wrapping_add(1); *p }".into(), "*x == 9u8.wrapping_add((i + 1) as u8)"),
        37 => e("let mut c = 0u32;", "!next(&mut c)".into(), "*x == !(i as u32 + 1)"),
        38 => e("", format!("|a: u32| a + {}", k), &format!("x(1) == 1 + {}", k)),
        39 => e("", "<Vec<u8> as Default>::default()".into(), "x.is_empty() && x.capacity() == 0"),
        40 => e("let b = Box::new(5u8);", "*b".into(), "*x == 5"),
        41 => e("let mut c = 0u32;", "std::rc::Rc::new(Cell::new(next(&mut c)))".into(), "{ let old = x.get(); x.set(0); old == i as u32 + 1 && std::rc::Rc::strong_count(x) == 1 }"),
        42 => e("", format!("b\"{}\"", "xyz".repeat((k % 3) as usize)), &format!("x.len() == {}", k % 3 * 3)),
        43 => e("", "G::<String>::four()".into(), "x == &[String::new(), String::new(), String::new(), String::new()]"),
        44 => e("let mut c = 0u32;", format!("if next(&mut c) % 2 == 0 {{ E::Two({}) }} else {{ E::default() }}", k), &format!("*x == if i % 2 == 1 {{ E::Two({}) }} else {{ E::One }}", k)),
        45 => e("let mut c = 0u32;", format!("{{ let mut sum = 0; for j in 0..{} {{ if j % 2 == 1 {{ continue; }} sum += j; }} sum + next(&mut c) }}", k % 9), &format!("*x == (0..{}u32).filter(|j| j % 2 == 0).sum::<u32>() + i as u32 + 1", k % 9)),
        46 => e("let mut c = 0u32; let mut words = String::new();", "{ words.push('w'); next(&mut c); words.clone() }".into(), "x.len() == i + 1"),
        22 => e("let mut c = 0u32; let mut prev = 7u32;", "{ let old = prev; prev = prev.wrapping_mul(31) ^ next(&mut c); old }".into(), "{ let mut p = 7u32; for j in 0..i { p = p.wrapping_mul(31) ^ (j as u32 + 1); } *x == p }"),
        _ => e("let mut c = 0u32; let drops = RefCell::new(vec![]);", "D::new(&mut c, &drops)".into(), "x.id == i as u32 + 1"),
    };
    if kind == 47 { return constant(s, n, &lit, k); }
    let counted = expr.contains("next(&mut c)") && kind != 14 || matches!(kind, 1 | 23 | 29 | 33 | 35);
    let inv = format!("arr!([{}; {}])", expr, lit);
    let mut body = setup;
    let make = match form { 0 => format!("take({})", inv), 1 => format!("Q {{ inner: {}, tail: 0 }}.inner", inv), 2 => format!("{{ {} }}", inv), 3 => format!("(0, {}).1", inv), _ => inv.clone() };
    if n == 0 {
        // without elements the element type has to come from somewhere, and nothing is evaluated
        let (setup, ty, x, after) = match kind % 6 {
            0 => ("let mut c = 0u32;", "u32", "next(&mut c)".to_string(), "if c != 0 { return Err(format!(\"{} evaluations for no elements\", c)); }"),
            1 => ("let capacity = 1u64; let default_length = 2u64;", "(usize, u64, u64)", "elem".into(), ""),
            2 => ("let mut c = 0u32; let drops: RefCell<Vec<u32>> = RefCell::new(vec![]);", "D", "D::new(&mut c, &drops)".into(), "drop(a); if c != 0 || !drops.borrow().is_empty() { return Err(format!(\"{} evaluations for no elements\", c)); }"),
            3 => ("", "String", "return Err(\"the element of an empty array is evaluated\".to_string())".into(), ""),
            4 => ("let log: RefCell<Vec<usize>> = RefCell::new(vec![]); let capacity = &log; let default_length = 3usize;", "usize", "elem_log".into(), "if !log.borrow().is_empty() { return Err(\"the macro of an empty array is called\".into()); }"),
            _ => ("", "u32", k.to_string(), ""),
        };
        body = format!("{} let a: [{}; 0] = arr!([{}; {}]); if a.len() != 0 {{ return Err(format!(\"{{}} elements\", a.len())); }} {}", setup, ty, x, lit, after);
    } else {
        body += &format!(" {{ let a = {}; if a.len() != {} {{ return Err(format!(\"{{}} elements instead of {}\", a.len())); }} let whole: &[_; {}] = &a;", make, n, n, n);
        body += &format!(" for (i, x) in a.iter().enumerate() {{ if !({}) {{ return Err(format!(\"element {{}} is wrong\", i)); }} }}", ok);
        if counted { body += &format!(" if c != {} {{ return Err(format!(\"{{}} evaluations for {} elements\", c)); }}", n, n); }
        body += " }";
        if kind == 26 { body += &format!(" if TICKS.with(|t| t.get()) != {} {{ return Err(\"another number of evaluations than elements\".into()); }}", n); }
        if kind == 33 && n >= 2 {
            // an element that leaves the function where the array is
            body += &format!(" let mut c = 0u32; let r = (|c: &mut u32| -> Result<[u32; {}], String> {{ Ok(arr!([odd(c, {})?; {}])) }})(&mut c); if r.is_ok() || c != {} {{ return Err(format!(\"{{}} evaluations until the one that fails at {}\", c)); }}", n, n / 2, lit, n / 2 + 1, n / 2 + 1);
        }
        if kind == 23 { body += &format!(" if *drops.borrow() != (1..={}u32).collect::<Vec<_>>() {{ return Err(format!(\"dropped: {{:?}}\", drops.borrow())); }}", n); }
    }
    Case { body, alone: false, nontrivial: n >= 2, elements: n, labels: vec![
        if matches!(kind, 11..=13 | 32) { "the element is a macro given the index".into() } else { "the element is an expression".into() },
        format!("length {}", match n { 0 => "0", 1 => "1", 2..=31 => "2 to 31", 32 => "32", 33..=255 => "33 to 255", 256..=1000 => "256 to 1000", _ => "more than 1000" })] }
}

/// An array of constants, in a constant, a static or a default.
fn constant(s: &mut Src, n: usize, lit: &str, k: u64) -> Case {
    let (ty, expr, ok) = match s.below(7) {
        0 => ("u32", format!("twice({})", k), format!("*x == {}", 2 * k)),
        1 => ("Vec<u8>", "Vec::new()".to_string(), "x.is_empty()".to_string()),
        2 => ("Option<Box<u8>>", "{ None }".into(), "x.is_none()".into()),
        3 => ("std::sync::atomic::AtomicU32", format!("std::sync::atomic::AtomicU32::new({})", k), format!("{{ let old = x.fetch_add(1, std::sync::atomic::Ordering::SeqCst); old == {} }}", k)),
        4 => ("u64", "(KONST)".into(), "*x == KONST".into()),
        5 => ("&'static str", format!("\"k{}\"", k), format!("*x == \"k{}\"", k)),
        _ => ("(u8, [u8; 2])", format!("({}, [1, {}])", k, k), format!("*x == ({}, [1, {}])", k, k)),
    };
    let item = match s.below(3) {
        0 => format!("static A: [{}; {}] = arr!([{}; {}]); let a = &A;", ty, n, expr, lit),
        1 => format!("const A: [{}; {}] = arr!([{}; {}]); let a = A;", ty, n, expr, lit),
        _ => format!("fn make() -> [{}; {}] {{ arr!([{}; {}]) }} let a = make();", ty, n, expr, lit),
    };
    Case { body: format!("{} if a.len() != {} {{ return Err(format!(\"{{}} elements instead of {}\", a.len())); }} for (i, x) in a.iter().enumerate() {{ if !({}) {{ return Err(format!(\"element {{}} is wrong\", i)); }} }}", item, n, n, ok),
        alone: false, nontrivial: n >= 2, elements: n, labels: vec!["an array outside of an expression".into()] }
}

fn pointer(s: &mut Src) -> Case {
    let k = s.below(1000);
    let (setup, expr, after) = match s.below(20) {
        8 => (format!("let mut v = {}u32; let want = &mut v as *mut u32; let h = Holder {{ p: want, calls: Cell::new(0) }};", k), "h.count()".to_string(), "if h.calls.get() != 1 { return Err(format!(\"evaluated {} times\", h.calls.get())); }".to_string()),
        9 => (format!("let mut v = {}u32; let want = &mut v as *mut u32; let calls = Cell::new(0);", k), "point(want, &calls)".into(), "if calls.get() != 1 { return Err(format!(\"evaluated {} times\", calls.get())); }".into()),
        10 => (format!("let mut v = [0u8; 40]; let want = v.as_mut_ptr().wrapping_add({});", k % 40), format!("(v.as_mut_ptr() as usize + {}) as *mut u8", k % 40), "".into()),
        11 => (format!("let mut v = [0u8; 40]; let want = v.as_mut_ptr().wrapping_add({});", k % 40), "want as *const u8 as *mut u8".into(), "".into()),
        12 => (format!("let mut v = vec![1u16; {}]; let want = &mut v[..] as *mut [u16];", k % 9), "&mut v[..] as *mut [u16]".into(), format!("if unsafe {{ p.as_ref() }}.len() != {} {{ return Err(\"another length\".into()); }}", k % 9)),
        13 => (format!("let want = {}usize as *mut u8;", 1 + k), format!("{}usize as *mut u8", 1 + k), "".into()),
        14 => (format!("let want = (usize::MAX - {}) as *mut u8;", k), format!("(usize::MAX - {}) as *mut u8", k), "".into()),
        15 => ("let want = std::ptr::NonNull::<u64>::dangling().as_ptr();".into(), "std::ptr::NonNull::<u64>::dangling().as_ptr()".into(), "".into()),
        16 => (format!("let mut s = String::from(\"{}\"); let want: *mut dyn std::fmt::Display = &mut s;", k), "want".into(), format!("if unsafe {{ p.as_ref() }}.to_string() != \"{}\" {{ return Err(\"another value\".into()); }}", k)),
        17 => (format!("let calls = Cell::new(0); let mut v = [{}u32, 1, 2]; let want = &mut v[2] as *mut u32;", k), "match calls.replace(calls.get() + 1) { _ => &mut v[2] as *mut u32 }".into(), "if calls.get() != 1 { return Err(format!(\"evaluated {} times\", calls.get())); }".into()),
        18 => (format!("let mut q: Vec<*mut u32> = vec![8 as *mut u32, {} as *mut u32]; let want = q[1];", 16 + 4 * k), "q.pop().unwrap()".into(), "if q.len() != 1 { return Err(format!(\"evaluated {} times\", 2 - q.len())); }".into()),
        19 => (format!("const P: std::ptr::NonNull<u8> = non_null_new_uncheck!({}usize as *mut u8); let want = {}usize as *mut u8;", k + 1, k + 1), "P.as_ptr()".into(), "".into()),

        0 => (format!("let mut v = {}u32; let want = &mut v as *mut u32;", k), "want".into(), "".into()),
        1 => (format!("let mut v = {}u32; let want = &mut v as *mut u32;", k), "&mut v as *mut u32".into(), "".into()),
        2 => (format!("let mut c = 0; let mut v = {}u32; let want = &mut v as *mut u32;", k), "{ c += 1; want }".into(), "if c != 1 { return Err(format!(\"evaluated {} times\", c)); }".into()),
        3 => (format!("let mut v = [{}u32, 1, 2]; let want = unsafe {{ v.as_mut_ptr().add({}) }};", k, k % 3), format!("v.as_mut_ptr().wrapping_add({})", k % 3), "".into()),
        4 => (format!("let mut v = {}u32; let want = &mut v as *mut u32; let mut h = Holder {{ p: want, calls: Cell::new(0) }};", k), "h.get()".into(), "".into()),
        5 => (format!("let mut v = {}u32; let want = &mut v as *mut u32; let h = Holder {{ p: want, calls: Cell::new(0) }};", k), "h.p".into(), "".into()),
        6 => (format!("let mut v = {}u32; let want = &mut v as *mut u32; let mut w = 5u32; let other = &mut w as *mut u32;", k), format!("if {} {{ want }} else {{ other }}", k >= 0), "".into()),
        _ => (format!("let mut c = 0; let b = Box::into_raw(Box::new({}u32)); let want = b;", k), "{ c += 1; b }".into(), "drop(unsafe { Box::from_raw(b) }); if c != 1 { return Err(format!(\"evaluated {} times\", c)); }".into()),
    };
    let effect = setup.contains("let mut c") || !after.is_empty();
    Case { body: format!("{} let p: std::ptr::NonNull<_> = non_null_new_uncheck!({}); if p.as_ptr() != want {{ return Err(\"another pointer\".into()); }} {}", setup, expr, after),
        alone: false, nontrivial: effect, elements: 1, labels: vec!["a pointer".into()] }
}

/// No length can be read off these: they must be refused by the compiler, or have the length they mean.
fn refused(s: &mut Src) -> Case {
    let n = s.urange(1, 40);
    let (inv, means) = match s.below(12) {
        9 => (format!("arr!([7u32; {}{}])", n, ["u8", "i32", "_u64", "i8", "u128", "_isize", "u16", "i64"][s.idx(8)]), Some(n)),
        10 => (format!("arr!([7u32; 0x{:x}{}])", n, ["u8", "_i32", "u64", "_u16"][s.idx(4)]), Some(n)),
        11 => (format!("arr!([7u32; b'{}'])", (b'a' + (n % 26) as u8) as char), Some((b'a' + (n % 26) as u8) as usize)),
        0 => ("arr!([7u32; N])".to_string(), Some(n)),
        1 => (format!("arr!([7u32; {} + 1])", n - 1), Some(n)),
        2 => (format!("arr!([7u32; {{ {} }}])", n), Some(n)),
        3 => (format!("arr!([7u32; ({})])", n), Some(n)),
        4 => (format!("arr!([7u32; \"{}\"])", n), None),
        5 => (format!("arr!([7u32; {}.0])", n), None),
        6 => (format!("arr!([7u32; -{}])", n), None),
        7 => ("arr!([7u32; true])".to_string(), None),
        _ => (format!("arr!([7u32; {} as usize])", n), Some(n)),
    };
    let check = match means {
        Some(m) => format!("if a.len() != {} {{ return Err(format!(\"the array has {{}} elements instead of {}\", a.len())); }}", m, m),
        None => "return Err(format!(\"a length that is no integer is taken for {}\", a.len()));".into(),
    };
    Case { body: format!("const N: usize = {}; let a = {}; let whole: &[u32] = &a; {}", n, inv, check), alone: true, nontrivial: true, elements: 0, labels: vec!["a length that is not a literal".into()] }
}

enum Ran { Results(Vec<(usize, String)>), NotCompiled(Vec<usize>, String), Trouble(String) }

/// Compile and run a program of these cases.
fn run(tmp: &str, tag: &str, bodies: &[&str]) -> Ran {
    let mut text = String::from(PRELUDE);
    let first = text.lines().count();
    for (i, b) in bodies.iter().enumerate() { text += &format!("fn case_{}() -> R {{ {} Ok(()) }}\n", i, b.replace('\n', " ")); }
    text += &format!("static CASES: [fn() -> R; {}] = [{}];\n", bodies.len(), (0..bodies.len()).map(|i| format!("case_{}", i)).collect::<Vec<_>>().join(", "));
    text += "fn main() { std::panic::set_hook(Box::new(|_| {})); for (i, f) in CASES.iter().enumerate() { match std::panic::catch_unwind(f) { Ok(Ok(())) => {} Ok(Err(m)) => println!(\"FAIL {} {}\", i, m.replace('\\n', \" \")), Err(_) => println!(\"FAIL {} panic\", i) } } println!(\"DONE\"); }\n";
    let src = format!("{}/{}.rs", tmp, tag);
    let exe = format!("{}/{}.bin", tmp, tag);
    if let Err(e) = std::fs::write(&src, text) { return Ran::Trouble(e.to_string()); }
    let Ok(so) = std::env::var("VERIF_MACRO_SO") else { return Ran::Trouble("VERIF_MACRO_SO is not set".into()) };
    let mut cmd = Command::new("rustc");
    cmd.args(["--edition", "2021", "--crate-name", "generated", "--crate-type", "bin", "--color", "never", "-o", &exe, "--extern"]).arg(format!("custom_proc_macro={}", so)).arg(&src)
        .env_remove("RUSTFLAGS").current_dir(tmp);
    let (st, err) = match timed(cmd, &format!("{}/{}.err", tmp, tag), 120) { Ok(x) => x, Err(e) => return Ran::Trouble(format!("rustc: {}", e)) };
    if !st {
        if !err.contains("error") { return Ran::Trouble(format!("rustc failed: {}", clip(err, 1500))); }
        let mut bad: Vec<usize> = vec![];
        for l in err.lines() {
            if let Some(i) = l.find(&format!("{}.rs:", tag)) {
                if !l.trim_start().starts_with("-->") { continue; }
                let rest = &l[i + tag.len() + 4..];
                if let Ok(n) = rest.split(':').next().unwrap_or("").parse::<usize>() { if n > first && n <= first + bodies.len() { bad.push(n - first - 1); } }
            }
        }
        bad.sort();
        bad.dedup();
        return Ran::NotCompiled(bad, clip(err, 1500));
    }
    let outp = format!("{}/{}.out", tmp, tag);
    let mut cmd = Command::new(&exe);
    match std::fs::File::create(&outp) { Ok(f) => { cmd.stdout(f); } Err(e) => return Ran::Trouble(e.to_string()) }
    let r = timed(cmd, &format!("{}/{}.err", tmp, tag), 60);
    let out = std::fs::read_to_string(&outp).unwrap_or_default();
    let _ = std::fs::remove_file(&exe);
    match r {
        Ok((true, _)) if out.ends_with("DONE\n") => Ran::Results(out.lines().filter_map(|l| { let mut p = l.strip_prefix("FAIL ")?.splitn(2, ' '); Some((p.next()?.parse().ok()?, p.next().unwrap_or("").to_string())) }).collect()),
        Ok((_, err)) => Ran::Trouble(format!("the generated program died: {}", clip(err, 800))),
        Err(e) => Ran::Trouble(e),
    }
}

fn timed(mut cmd: Command, errp: &str, secs: u64) -> Result<(bool, String), String> {
    let f = std::fs::File::create(errp).map_err(|e| e.to_string())?;
    let mut c = cmd.stdin(Stdio::null()).stderr(f).spawn().map_err(|e| e.to_string())?;
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().map_err(|e| e.to_string())? { return Ok((st.success(), std::fs::read_to_string(errp).unwrap_or_default())); }
        if t0.elapsed() > Duration::from_secs(secs) { let _ = c.kill(); let _ = c.wait(); return Err(format!("not finished after {} s", secs)); }
        std::thread::sleep(Duration::from_millis(10));
    }
}

/// The verdict on one case, alone.
fn alone(tmp: &str, tag: &str, c: &Case) -> Result<Option<(String, String)>, String> {
    match run(tmp, tag, &[&c.body]) {
        Ran::Results(f) => Ok(f.into_iter().next().map(|(_, m)| (if c.alone { "macro/length".into() } else { "macro/value".into() }, m))),
        Ran::NotCompiled(_, e) => if c.alone { Ok(None) } else { Ok(Some(("macro/refused".into(), format!("a valid invocation does not compile: {}", e)))) },
        Ran::Trouble(e) => if e.contains("program died") { Ok(Some(("macro/crash".into(), e))) } else { Err(e) },
    }
}

fn source(seed: u64, idx: u64) -> (Case, Vec<u64>) {
    let mut s = Src::random(case_seed(seed, ID, "invocations", idx));
    let c = case(&mut s);
    (c, s.rec)
}

pub fn parent(root: &str, seed: u64, thorough: bool, scale: f64, replay: Option<String>, detect_only: bool) -> i32 {
    let t0 = Instant::now();
    let tmp = format!("{}/verif-harness-{}-{}", std::env::temp_dir().display(), ID, std::process::id());
    std::fs::create_dir_all(&tmp).expect("tmp dir");
    struct Rm(String);
    impl Drop for Rm { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
    let _rm = Rm(tmp.clone());
    // the compiler and an empty program have to work before anything is said about the macros
    if let Ran::Trouble(e) | Ran::NotCompiled(_, e) = run(&tmp, "empty", &[]) { eprintln!("error: generated programs can not be compiled: {}", e); return 2; }
    if let Some(f) = replay {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("json");
        let ch: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        let c = case(&mut Src::replay(ch));
        return match alone(&tmp, "replay", &c) {
            Ok(Some((sig, m))) => { println!("check invocations signature {}\n{}\ncase: {}", sig, m, c.body); println!("VIOLATION property={} replay={}", ID, f); 1 }
            Ok(None) => { println!("replay passes"); 0 }
            Err(e) => { eprintln!("error: {}", e); 2 }
        };
    }
    let total = ((if thorough { 60000.0 } else { 2400.0 }) * scale).ceil() as u64;
    let per = 100u64;
    let batches = total.div_ceil(per) as usize;
    let turn = AtomicUsize::new(0);
    let (fails, errors) = (Mutex::new(vec![]), Mutex::new(vec![]));
    std::thread::scope(|sc| for w in 0..8 {
        let (turn, fails, errors, tmp) = (&turn, &fails, &errors, &tmp);
        sc.spawn(move || loop {
            let b = turn.fetch_add(1, Ordering::SeqCst);
            if b >= batches || !errors.lock().unwrap().is_empty() || fails.lock().unwrap().len() > 20 { return; }
            let cs: Vec<(u64, Case)> = (b as u64 * per..((b as u64 + 1) * per).min(total)).map(|i| (i, source(seed, i).0)).collect();
            let mut together: Vec<&(u64, Case)> = cs.iter().filter(|c| !c.1.alone).collect();
            let mut suspects: Vec<u64> = vec![];
            // a program that does not compile is tried again without the cases at fault
            for _ in 0..4 {
                let bodies: Vec<&str> = together.iter().map(|c| &c.1.body[..]).collect();
                match run(tmp, &format!("p{}", w), &bodies) {
                    Ran::Results(f) => { for (k, _) in f { suspects.push(together[k].0); } break; }
                    Ran::NotCompiled(bad, e) => {
                        if bad.is_empty() { errors.lock().unwrap().push(format!("a generated program does not compile: {}", e)); break; }
                        suspects.extend(bad.iter().map(|k| together[*k].0));
                        let mut k = 0;
                        together.retain(|_| { k += 1; !bad.contains(&(k - 1)) });
                    }
                    Ran::Trouble(e) if e.contains("program died") => { suspects.extend(together.iter().map(|c| c.0)); break; }
                    Ran::Trouble(e) => { errors.lock().unwrap().push(e); break; }
                }
            }
            suspects.truncate(8);
            for (i, c) in cs.iter().filter(|c| c.1.alone || suspects.contains(&c.0)) {
                match alone(tmp, &format!("a{}", w), c) { Ok(Some((sig, m))) => fails.lock().unwrap().push((*i, sig, m)), Ok(None) => {} Err(e) => errors.lock().unwrap().push(e) }
            }
        });
    });
    let (mut fails, mut errors) = (fails.into_inner().unwrap(), errors.into_inner().unwrap());
    fails.sort();
    let (mut labels, mut samples, mut elements): (BTreeMap<String, u64>, Vec<Value>, u64) = Default::default();
    let mut seen = HashSet::new();
    for i in 0..total {
        let (c, rec) = source(seed, i);
        for l in &c.labels { *labels.entry(format!("invocations:{}", l)).or_insert(0) += 1; }
        elements += c.elements as u64;
        if c.nontrivial {
            let mut h = 0u64;
            for x in &rec { h = (h ^ x).wrapping_mul(0x100000001b3).rotate_left(23); }
            seen.insert(h);
            if samples.len() < 6 && i % (total / 8).max(1) < 3 { samples.push(json!({"check": "invocations", "case": i, "input": clip(c.body, 800)})); }
        }
    }
    if detect_only {
        for (i, sig, m) in &fails { println!("check invocations failed (case {}), signature {}\n{}", i, sig, clip(m.clone(), 600)); }
        return if !fails.is_empty() { 1 } else if errors.is_empty() { 0 } else { 2 };
    }
    let mut violations = 0;
    let mut sigs = HashSet::new();
    for (i, sig, msg) in fails {
        if !sigs.insert(sig.clone()) { continue; }
        // shrink: every candidate is a program of its own
        let mut best = source(seed, i).1;
        let (mut msg, mut tries) = (msg, 0);
        'more: loop {
            let mut cands: Vec<Vec<u64>> = vec![];
            for k in 0..best.len() {
                let mut c = best.clone(); c.remove(k); cands.push(c);
                for v in [0, best[k] / 2, best[k].saturating_sub(1)] { if v < best[k] { let mut c = best.clone(); c[k] = v; cands.push(c); } }
            }
            for c in cands {
                tries += 1;
                if tries > 60 { break 'more; }
                let mut s = Src::replay(c);
                let cs = case(&mut s);
                let mut rec = s.rec;
                while rec.last() == Some(&0) { rec.pop(); }
                if !(rec.len() < best.len() || rec.len() == best.len() && rec < best) { continue; }
                if let Ok(Some((g, m))) = alone(&tmp, "shrink", &cs) { if g == sig { best = rec; msg = m; continue 'more; } }
            }
            break;
        }
        let body = case(&mut Src::replay(best.clone())).body;
        println!("check invocations failed (case {}), signature {} (shrunk to {} choices in {} tries)\n{}\ncase: {}", i, sig, best.len(), tries, clip(msg.clone(), 2000), body);
        let dir = format!("{}/replays/{}", root, ID);
        std::fs::create_dir_all(&dir).ok();
        let p = format!("{}/invocations-{:016x}.json", dir, fnv(body.as_bytes()));
        let v = json!({"property": ID, "check": "invocations", "signature": sig, "message": msg, "case": body, "choices": best, "how": format!("/verif/check.sh {} --replay <this file>", ID)});
        std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).ok();
        println!("VIOLATION property={} replay={}", ID, p);
        violations += 1;
    }
    let ev = json!({"property": ID, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": total, "distinct_nontrivial": seen.len(), "rule": RULE, "samples": samples, "classes": labels, "array_elements": elements, "programs": batches},
        "assumptions": ["element expressions come from 47 kinds, of which four are the name of a macro (that is how a bare path is understood); lengths up to about 4300"],
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0, "violations": violations});
    std::fs::create_dir_all(format!("{}/evidence", root)).ok();
    std::fs::write(format!("{}/evidence/{}.json", root, ID), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!("{}: {} evaluations, {} distinct non-trivial, {:.1} s, seed {}", ID, total, seen.len(), t0.elapsed().as_secs_f64(), seed);
    if violations > 0 { return 1; }
    errors.dedup();
    if !errors.is_empty() { for e in errors { eprintln!("error: {}", e); } return 2; }
    0
}
