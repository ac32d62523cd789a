//! Observation of decoded values
use std::collections::*;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;
use knuffel::span::{LineSpan, Span, Spanned};
use crate::custom::{Even, Short};
use crate::model::{s, some, Val};

pub trait Dump {
    fn dump(&self) -> Val;
}
macro_rules! ints {
    ($($t:ident)*) => { $(impl Dump for $t { fn dump(&self) -> Val { Val::Int(*self as i128) } })* }
}
ints!(i8 i16 i32 i64 isize u16 u32 u64 usize u8);
impl Dump for f64 { fn dump(&self) -> Val { Val::F64(self.to_bits()) } }
impl Dump for f32 { fn dump(&self) -> Val { Val::F32(self.to_bits()) } }
impl Dump for bool { fn dump(&self) -> Val { Val::Bool(*self) } }
impl Dump for String { fn dump(&self) -> Val { s(self) } }
impl Dump for str { fn dump(&self) -> Val { s(self) } }
impl Dump for char { fn dump(&self) -> Val { s(&self.to_string()) } }
impl Dump for PathBuf { fn dump(&self) -> Val { s(self.to_str().unwrap()) } }
impl Dump for Path { fn dump(&self) -> Val { s(self.to_str().unwrap()) } }
impl Dump for std::net::SocketAddr { fn dump(&self) -> Val { s(&self.to_string()) } }
impl Dump for Even { fn dump(&self) -> Val { s(&self.0) } }
impl Dump for Short { fn dump(&self) -> Val { Val::Bytes(self.0.clone()) } }
impl<T: Dump> Dump for Option<T> {
    fn dump(&self) -> Val { self.as_ref().map_or(Val::None, |x| some(x.dump())) }
}
impl<T: Dump + ?Sized> Dump for Box<T> { fn dump(&self) -> Val { (**self).dump() } }
impl<T: Dump + ?Sized> Dump for Rc<T> { fn dump(&self) -> Val { (**self).dump() } }
impl<T: Dump + ?Sized> Dump for Arc<T> { fn dump(&self) -> Val { (**self).dump() } }
impl Dump for Span { fn dump(&self) -> Val { Val::Sp(self.0, self.1, None) } }
impl Dump for LineSpan {
    fn dump(&self) -> Val {
        Val::Sp(self.0.offset, self.1.offset, Some([self.0.line, self.0.column, self.1.line, self.1.column]))
    }
}
impl<T: Dump, S: Dump> Dump for Spanned<T, S> {
    fn dump(&self) -> Val { Val::Spanned(Box::new(self.span().dump()), Box::new((**self).dump())) }
}
impl<T: Dump> Dump for Vec<T> { fn dump(&self) -> Val { Val::List(self.iter().map(|x| x.dump()).collect()) } }
impl<T: Dump> Dump for VecDeque<T> { fn dump(&self) -> Val { Val::List(self.iter().map(|x| x.dump()).collect()) } }
impl<T: Dump> Dump for LinkedList<T> { fn dump(&self) -> Val { Val::List(self.iter().map(|x| x.dump()).collect()) } }
impl<T: Dump> Dump for BTreeSet<T> { fn dump(&self) -> Val { Val::List(self.iter().map(|x| x.dump()).collect()) } }
fn key(v: Val) -> String {
    match v {
        Val::Str(s) => s,
        v => panic!("harness: key {:?}", v),
    }
}
fn map<'a, K: Dump + 'a, V: Dump + 'a>(it: impl Iterator<Item = (&'a K, &'a V)>) -> Val {
    let mut v: Vec<(String, Val)> = it.map(|(k, v)| (key(k.dump()), v.dump())).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    Val::Map(v)
}
impl<K: Dump, V: Dump> Dump for BTreeMap<K, V> { fn dump(&self) -> Val { map(self.iter()) } }
impl<K: Dump, V: Dump> Dump for HashMap<K, V> { fn dump(&self) -> Val { map(self.iter()) } }

/// `bytes` fields
pub fn bytes(b: &[u8]) -> Val {
    Val::Bytes(b.to_vec())
}
/// `properties` collected into a vector
pub fn pairs<K: Dump, V: Dump>(v: &[(K, V)]) -> Val {
    map(v.iter().map(|x| (&x.0, &x.1)))
}
