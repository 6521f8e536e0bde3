//! C31: file metadata, internal keys and the tags stored on disk.
use crate::engine::*;
use crate::ensure;
use level_db_rust::db::db_format::{InternalKey, ValueType};
use level_db_rust::db::file_meta_data::FileMetaData;
use level_db_rust::db::version_edit::Tag;
use level_db_rust::util::slice::Slice;

#[derive(Clone, Debug, PartialEq)]
struct Model { refs: i32, seeks: i32, number: u64, size: u64, small: Vec<u8>, large: Vec<u8> }

fn ikey(b: &[u8]) -> InternalKey { if b.is_empty() { InternalKey::default() } else { InternalKey::verif_from(Slice::from_buf(b)) } }

fn int(s: &mut Src) -> i32 { match s.below(4) { 0 => s.below(5) as i32, 1 => -(s.below(5) as i32), 2 => s.edge32() as i32, _ => *s.pick(&[i32::MAX, i32::MIN, i32::MIN + 1, 1 << 30, (1 << 30) + 1]) } }

impl Model {
    fn any(s: &mut Src) -> Model { Model { refs: int(s), seeks: int(s), number: s.edge64(), size: s.edge64(), small: s.blob(30), large: s.blob(30) } }
    /// Through the given constructor, which takes some of the fields and has defaults for the others.
    fn build(&mut self, how: usize) -> FileMetaData {
        let empty = || vec![];
        match how {
            0 => { *self = Model { refs: 0, seeks: 1 << 30, number: 0, size: 0, small: empty(), large: empty() }; FileMetaData::default() }
            1 => { *self = Model { seeks: 1 << 30, number: 0, size: 0, small: empty(), large: empty(), ..self.clone() }; FileMetaData::new_with_refs(self.refs) }
            2 => { *self = Model { number: 0, size: 0, small: empty(), large: empty(), ..self.clone() }; FileMetaData::new_with_refs_allowed_seeks(self.refs, self.seeks) }
            3 => { *self = Model { number: 0, small: empty(), large: empty(), ..self.clone() }; FileMetaData::new_with_refs_allowed_seeks_file_size(self.refs, self.seeks, self.size) }
            4 => { self.number = 0; FileMetaData::new_with_refs_allowed_seeks_file_size_internal_key(self.refs, self.seeks, self.size, ikey(&self.small), ikey(&self.large)) }
            5 => { self.refs = 0; self.seeks = 1 << 30; FileMetaData::new_with_number_file_size_internal_key(self.number, self.size, ikey(&self.small), ikey(&self.large)) }
            _ => FileMetaData::new(self.refs, self.seeks, self.number, self.size, ikey(&self.small), ikey(&self.large)),
        }
    }
}

fn agree(what: &str, f: &FileMetaData, m: &Model) -> Res {
    ensure!(f.get_refs() == m.refs, "meta/refs", "{}: {} references instead of {}", what, f.get_refs(), m.refs);
    ensure!(f.get_number() == m.number, "meta/number", "{}: number {} instead of {}", what, f.get_number(), m.number);
    ensure!(f.get_file_size() == m.size, "meta/size", "{}: size {} instead of {}", what, f.get_file_size(), m.size);
    ensure!(f.get_smallest().as_slice().as_ref() == &m.small[..] && f.get_smallest().encode_len() == m.small.len(), "meta/smallest", "{}: smallest key is {} instead of {}", what, hex(f.get_smallest().as_slice().as_ref()), hex(&m.small));
    ensure!(f.get_largest().as_slice().as_ref() == &m.large[..] && f.get_largest().encode_len() == m.large.len(), "meta/largest", "{}: largest key is {} instead of {}", what, hex(f.get_largest().as_slice().as_ref()), hex(&m.large));
    Ok(())
}

fn metadata(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.urange(1, 5);
    let base = Model::any(s);
    let mut ms: Vec<(usize, Model)> = (0..n).map(|_| {
        let how = s.idx(7);
        let m = if s.chance(2, 3) {
            // near the others, so that equality has something to decide
            let mut m = base.clone();
            let other = Model::any(s);
            match s.below(8) { 0 => m.refs = other.refs, 1 => m.seeks = other.seeks, 2 => m.number = other.number, 3 => m.size = other.size, 4 => m.small = other.small, 5 => m.large = other.large,
                6 => { let k = s.idx(m.small.len() + 1); if k < m.small.len() { m.small[k] ^= 1 << s.below(8) } else { m.small.push(s.u8()) } } _ => {} }
            m
        } else { Model::any(s) };
        (how, m)
    }).collect();
    let steps: Vec<(usize, bool, u64, i32)> = { let k = s.idx(8); (0..k).map(|_| (s.idx(n), s.bool(), s.edge64(), int(s))).collect() };
    cx.start(s, || format!("{:?} then {:?}", ms, steps));
    let mut fs: Vec<FileMetaData> = vec![];
    for (how, m) in ms.iter_mut() {
        let f = must("new", || m.build(*how))?;
        agree("new", &f, m)?;
        fs.push(f);
    }
    for (i, set, size, add) in &steps {
        let (f, m) = (&mut fs[*i], &mut ms[*i].1);
        if *set { must("set_file_size", || f.set_file_size(*size))?; m.size = *size; }
        else if let Some(r) = m.refs.checked_add(*add) { must("add_refs", || f.add_refs(*add))?; m.refs = r; cx.label("references changed"); }
        agree("after a change", f, m)?;
    }
    let (mut equal, mut close) = (false, false);
    for i in 0..n {
        for j in 0..n {
            let (e, want) = (must("eq", || fs[i] == fs[j])?, ms[i].1 == ms[j].1);
            ensure!(e == want, "meta/eq", "{:?} and {:?} are {}", ms[i].1, ms[j].1, if e { "equal" } else { "different" });
            ensure!((fs[i] != fs[j]) == !e, "meta/eq", "== and != agree on {:?} and {:?}", ms[i].1, ms[j].1);
            if i != j { equal |= want; close |= !want; }
        }
        // the same contents built another way, and one field away
        let m = ms[i].1.clone();
        let again = m.clone().build(6);
        ensure!(fs[i] == again, "meta/eq", "{:?} differs from metadata with the same contents", m);
        for k in 0..6 {
            let mut o = m.clone();
            match k { 0 => o.refs = o.refs.wrapping_add(1), 1 => o.seeks ^= 1, 2 => o.number ^= 1 << (i * 13 % 64), 3 => o.size ^= 1 << (i * 29 % 64), 4 => o.small.push(0), _ => o.large.push(0) }
            ensure!(fs[i] != o.clone().build(6), "meta/eq", "{:?} and {:?} are equal", m, o);
        }
        agree("in the end", &fs[i], &m)?;
        must("debug", || format!("{:?}", fs[i]))?;
    }
    cx.label_if(equal, "equal metadata");
    cx.label_if(close, "different metadata");
    cx.nontrivial_if(n >= 2 || !steps.is_empty());
    Ok(())
}

fn keys_and_tags(s: &mut Src, cx: &mut Cx) -> Res {
    let long = s.chance(1, 12);
    let a = if long { let n = s.idx(100_000); s.bytes(n) } else { s.blob(40) };
    let mut b = if s.bool() { a.clone() } else { s.blob(40) };
    if s.chance(1, 3) && !b.is_empty() { let k = s.idx(b.len()); b[k] ^= 1 << s.below(8); }
    if s.chance(1, 6) { b.push(s.u8()); }
    let v = match s.below(3) { 0 => s.below(20) as u32, 1 => s.edge32(), _ => s.u32() };
    cx.start(s, || format!("keys {} and {}, tag {}", hex(&a), hex(&b), v));
    cx.nontrivial_if(!a.is_empty() || v <= 12);
    let (x, y) = (InternalKey::verif_from(Slice::from_buf(&a)), InternalKey::verif_from(Slice::from_buf(&b)));
    for (k, w) in [(&x, &a), (&y, &b)] {
        ensure!(k.as_slice().as_ref() == &w[..], "key/contents", "an internal key of {} holds {}", hex(w), hex(k.as_slice().as_ref()));
        ensure!(k.encode_len() == w.len(), "key/length", "an internal key of {} has encoded length {}", hex(w), k.encode_len());
    }
    ensure!((x == y) == (a == b) && (y == x) == (a == b), "key/eq", "internal keys {} and {} are {}", hex(&a), hex(&b), if x == y { "equal" } else { "different" });
    ensure!((x == InternalKey::default()) == a.is_empty(), "key/eq", "the internal key {} and the empty one", hex(&a));
    let (e, f) = (must("encode", || x.encode())?, must("encode", || y.encode())?);
    ensure!(e.as_ref() == &a[..] && f.as_ref() == &b[..], "key/encode", "internal keys {} and {} encode as {} and {}", hex(&a), hex(&b), hex(e.as_ref()), hex(f.as_ref()));
    cx.label_if(a == b, "equal keys");
    cx.label_if(long, "long keys");
    // tags on disk
    for t in [v, v % 12] {
        let known = (1..=7).contains(&t) || t == 9;
        match must("from_value", || Tag::from_value(t))? {
            Some(tag) => {
                ensure!(known, "tag/unknown", "{} is taken for a tag", t);
                ensure!(tag.get_value() == t as i32 && tag as u32 == t, "tag/value", "tag {} has another value", t);
            }
            None => ensure!(!known, "tag/refused", "tag {} is not recognised", t),
        }
        for w in [t as i32, (t as i32).wrapping_neg()] {
            match must("try_from", || ValueType::try_from(w))? {
                Ok(k) => ensure!((w == 0 && matches!(k, ValueType::KTypeDeletion) || w == 1 && matches!(k, ValueType::KTypeValue)) && k.get_value() == w as usize, "type/value", "value type {} becomes one with value {}", w, k.get_value()),
                Err(_) => ensure!(w != 0 && w != 1, "type/refused", "value type {} is not recognised", w),
            }
        }
        cx.label_if(known, "a known tag");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C31", rule: "at least two metadata objects or a change to one; a non-empty key or a small tag value", assumptions: &["internal keys are given their contents through a hook, because building one from its parts is todo!()", "reference counts do not overflow", "the ordering of metadata is todo!() and not checked"],
            subs: vec![Sub { name: "metadata", quick: 60000, thorough: 5000000, run: metadata }, Sub { name: "keys_and_tags", quick: 60000, thorough: 5000000, run: keys_and_tags }] },
    ]
}
