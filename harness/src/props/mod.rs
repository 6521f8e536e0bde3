use crate::engine::Prop;
pub mod wal;
pub mod codec;
pub mod sums;
pub mod filters;
pub mod bytes;
pub mod mem;
pub mod cache;
pub mod misc;
pub mod meta;
pub mod huge;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(wal::props());
    v.extend(codec::props());
    v.extend(sums::props());
    v.extend(filters::props());
    v.extend(bytes::props());
    v.extend(mem::props());
    v.extend(cache::props());
    v.extend(misc::props());
    v.extend(meta::props());
    for p in &mut v {
        let more = huge::subs(p.id);
        if !more.is_empty() { p.rule = Box::leak(format!("{}; huge: every case", p.rule).into_boxed_str()); }
        p.subs.extend(more);
    }
    v
}
pub fn find(id: &str) -> Option<Prop> { all().into_iter().find(|p| p.id == id) }
