//! Serialization round trips through a minimal format of 64-bit words. Structures are either
//! positional (as in compact binary formats) or with field names (as in JSON).
use crate::sym::*;
use serde::de::{self, DeserializeOwned, DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;
use vers_vecs::trees::{LevelTree, SubtreeSize, Tree};
use vers_vecs::{BinaryRmq, BitVec, BpTree, EliasFanoVec, FastRmq, RsVec, SparseRSVec, WaveletMatrix};

pub const ALL: &[(&str, fn())] = &[
    ("h_sd_bits", h_sd_bits),
    ("h_sd_rs", h_sd_rs),
    ("h_sd_rs_big", h_sd_rs_big),
    ("h_sd_ef", h_sd_ef),
    ("h_sd_sparse", h_sd_sparse),
    ("h_sd_rmq", h_sd_rmq),
    ("h_sd_wm", h_sd_wm),
    ("h_sd_bp", h_sd_bp),
    ("h_sd_big", h_sd_big),
];

#[derive(Debug)]
struct E;
impl fmt::Display for E {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(_: T) -> Self {
        E
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(_: T) -> Self {
        E
    }
}

#[derive(Default)]
struct Out {
    words: Vec<u64>,
    names: Vec<&'static str>,
}
macro_rules! put {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), E> { self.words.push(v as u64); Ok(()) })* };
}
impl<'a> ser::Serializer for &'a mut Out {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = ser::Impossible<(), E>;
    type SerializeStruct = Self;
    type SerializeStructVariant = ser::Impossible<(), E>;
    put!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
         serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_char char);
    fn serialize_u128(self, v: u128) -> Result<(), E> {
        self.words.push(v as u64);
        self.words.push((v >> 64) as u64);
        Ok(())
    }
    fn serialize_i128(self, v: i128) -> Result<(), E> {
        self.serialize_u128(v as u128)
    }
    fn serialize_f32(self, v: f32) -> Result<(), E> {
        self.serialize_u32(v.to_bits())
    }
    fn serialize_f64(self, v: f64) -> Result<(), E> {
        self.serialize_u64(v.to_bits())
    }
    fn serialize_str(self, _: &str) -> Result<(), E> {
        Err(E)
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), E> {
        self.words.push(v.len() as u64);
        for b in v {
            self.words.push(*b as u64);
        }
        Ok(())
    }
    fn serialize_none(self) -> Result<(), E> {
        self.words.push(0);
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), E> {
        self.words.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), E> {
        self.serialize_u32(i)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> {
        Err(E)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Self, E> {
        self.words.push(len.ok_or(E)? as u64);
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, E> {
        Err(E)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
        Err(E)
    }
    fn serialize_struct(self, _: &'static str, len: usize) -> Result<Self, E> {
        self.words.push(len as u64);
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        Err(E)
    }
}
impl<'a> ser::SerializeSeq for &'a mut Out {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}
impl<'a> ser::SerializeTuple for &'a mut Out {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}
impl<'a> ser::SerializeTupleStruct for &'a mut Out {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}
impl<'a> ser::SerializeTupleVariant for &'a mut Out {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}
impl<'a> ser::SerializeStruct for &'a mut Out {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, name: &'static str, v: &T) -> Result<(), E> {
        self.names.push(name);
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}

struct In<'a> {
    words: &'a [u64],
    names: &'a [&'static str],
    named: bool,
}
impl In<'_> {
    fn word(&mut self) -> Result<u64, E> {
        let (x, r) = self.words.split_first().ok_or(E)?;
        self.words = r;
        Ok(*x)
    }
    fn name(&mut self) -> Result<&'static str, E> {
        let (x, r) = self.names.split_first().ok_or(E)?;
        self.names = r;
        Ok(x)
    }
}
macro_rules! get {
    ($($f:ident $v:ident $t:ty),*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let x = self.word()?; v.$v(x as $t) })* };
}
macro_rules! no {
    ($($f:ident),*) => { $(fn $f<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E) })* };
}
struct Many<'a, 'b> {
    d: &'a mut In<'b>,
    left: u64,
}
impl<'de> SeqAccess<'de> for Many<'_, '_> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        s.deserialize(&mut *self.d).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.left as usize)
    }
}
/// fields of a positional structure: values are preceded by names in the stream, which are dropped
struct Positional<'a, 'b>(Many<'a, 'b>);
impl<'de> SeqAccess<'de> for Positional<'_, '_> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.0.left > 0 {
            self.0.d.name()?;
        }
        self.0.next_element_seed(s)
    }
}
struct Named<'a, 'b>(Many<'a, 'b>);
impl<'de> MapAccess<'de> for Named<'_, '_> {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, E> {
        if self.0.left == 0 {
            return Ok(None);
        }
        self.0.left -= 1;
        let n = self.0.d.name()?;
        s.deserialize(de::value::StrDeserializer::<E>::new(n)).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        s.deserialize(&mut *self.0.d)
    }
}
impl<'de> de::Deserializer<'de> for &mut In<'_> {
    type Error = E;
    get!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64,
         deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64);
    no!(deserialize_any, deserialize_char, deserialize_f32, deserialize_f64, deserialize_str, deserialize_string,
        deserialize_i128, deserialize_identifier, deserialize_ignored_any, deserialize_map);
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let x = self.word()?;
        v.visit_bool(x != 0)
    }
    fn deserialize_u128<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let lo = self.word()?;
        let hi = self.word()?;
        v.visit_u128((hi as u128) << 64 | lo as u128)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_byte_buf(v)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.word()?;
        let mut b = vec![];
        for _ in 0..n {
            b.push(self.word()? as u8);
        }
        v.visit_byte_buf(b)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if self.word()? == 0 {
            v.visit_none()
        } else {
            v.visit_some(self)
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let left = self.word()?;
        v.visit_seq(Many { d: self, left })
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Many { d: self, left: n as u64 })
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Many { d: self, left: n as u64 })
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        let left = self.word()?;
        let m = Many { left, d: self };
        if m.d.named {
            v.visit_map(Named(m))
        } else {
            v.visit_seq(Positional(m))
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, E> {
        Err(E)
    }
}
/// writes the value, reads it back, and requires that both succeed and nothing is left over
fn round<T: Serialize + DeserializeOwned>(x: &T, named: bool) -> T {
    let mut o = Out::default();
    check(x.serialize(&mut o).is_ok(), 91);
    let mut i = In { words: &o.words, names: &o.names, named };
    match T::deserialize(&mut i) {
        Ok(y) => {
            check(i.words.is_empty() && i.names.is_empty(), 92);
            y
        }
        Err(_) => {
            check(false, 93);
            loop {}
        }
    }
}

// ------------------------------------------------------------------ round trips

/// vector of the given length with junk behind its end
fn bits(len: u64) -> (BitVec, Vec<u64>) {
    let w: Vec<u64> = (0..len.div_ceil(64)).map(|_| any()).collect();
    let mut v = BitVec::from_limbs(&w);
    v.drop_last((w.len() as u64 * 64 - len) as usize);
    (v, w)
}
const LENS: [u64; 8] = [0, 1, 7, 63, 64, 65, 128, 190];
#[no_mangle]
pub fn h_sd_bits() {
    let c = choose(0, 15);
    let len = LENS[(c / 2) as usize];
    let (v, w) = bits(len);
    let u = round(&v, c % 2 == 1);
    check(u.len() as u64 == len, 1);
    for i in 0..len as usize {
        check(opt_is(u.get(i), true, (w[i / 64] >> (i % 64)) & 1), 2);
    }
    check(u.get(len as usize).is_none(), 3);
    check(u == v, 4);
    // it goes on as the original does
    let (mut u, mut v) = (u, v);
    let x = any();
    u.append_word(x);
    v.append_word(x);
    check(u == v, 5);
    check(opt_is(u.get_bits(len as usize, 64), true, x), 6);
    cover(1);
}
#[no_mangle]
pub fn h_sd_rs() {
    let c = choose(0, 15);
    let len = LENS[(c / 2) as usize];
    let (v, w) = bits(len);
    let r: RsVec = v.into();
    let s = round(&r, c % 2 == 1);
    check(s.len() as u64 == len, 1);
    for i in 0..len as usize {
        check(opt_is(s.get(i), true, (w[i / 64] >> (i % 64)) & 1), 2);
    }
    for i in [0, 1, 5, 63, 64, 65, 127, 128, 189, 190, 1000] {
        check(s.rank1(i) == r.rank1(i), 3);
        check(s.rank0(i) == r.rank0(i), 4);
    }
    cover(1);
}
/// params: words, background: select and iteration work on the copy of a large vector
#[no_mangle]
pub fn h_sd_rs_big() {
    let (n, kind) = (param(0), param(1));
    let c = choose(0, 1);
    fork(true);
    let mut w: Vec<u64> = (0..n).map(|i| crate::rsvec::bg(kind, i)).collect();
    let at = n as usize / 2;
    w[at] = (w[at] & !3) | any_bits(2);
    let r: RsVec = BitVec::from_limbs(&w).into();
    let s = round(&r, c == 1);
    let (ones, len) = (r.rank1(r.len()), r.len());
    check(s.len() == len && s.rank1(len) == ones, 1);
    for k in 0..40 {
        let i = k * len / 40;
        check(s.rank1(i) == r.rank1(i) && s.rank0(i) == r.rank0(i), 2);
        let i = k * ones / 40;
        check(s.select1(i) == r.select1(i), 3);
        let i = k * (len - ones) / 40;
        check(s.select0(i) == r.select0(i), 4);
    }
    check(s.select1(ones) == len && s.select0(len - ones) == len, 5);
    check(s == r, 6);
    let mut a = s.iter1();
    check(a.next_back() == r.iter1().next_back() && a.next() == r.iter1().next(), 7);
    cover(1);
}
#[no_mangle]
pub fn h_sd_ef() {
    let c = choose(0, 11);
    let n = c / 4;
    let (a, b) = (any_bits(6), any_bits(6));
    let base = [0u64, 1 << 40][((c / 2) % 2) as usize];
    fork(true);
    let mut d: Vec<u64> = [a, a + b][..n as usize].to_vec();
    if n > 0 {
        d.push(100 + (1 << 33));
    }
    for x in d.iter_mut() {
        *x += base;
    }
    let v = EliasFanoVec::from_slice(&d);
    let u = round(&v, c % 2 == 1);
    check(u.len() == d.len(), 1);
    for i in 0..d.len() {
        check(opt_is(u.get(i), true, d[i]), 2);
    }
    check(u.get(d.len()).is_none(), 3);
    for q in [0, base, base + 20, base + 63, base + (1 << 33), u64::MAX] {
        check(u.predecessor(q) == v.predecessor(q), 4);
        check(u.successor(q) == v.successor(q), 5);
        check(u.rank(q) == v.rank(q), 6);
    }
    let mut it = u.iter();
    for x in &d {
        check(it.next() == Some(*x), 7);
    }
    check(it.next().is_none(), 8);
    cover(1);
}
#[no_mangle]
pub fn h_sd_sparse() {
    let c = choose(0, 5);
    let n = c / 2;
    fork(true);
    let (a, b) = (any_bits(5), any_bits(5));
    let d: Vec<u64> = [a, a + b + 1][..n as usize].to_vec();
    let v = SparseRSVec::new(&d, 5000);
    let u = round(&v, c % 2 == 1);
    check(u.len() == 5000, 1);
    for q in [0, 1, 5, 31, 62, 63, 64, 4999] {
        check(u.is_set(q) == Some(d.contains(&q)), 2);
        check(u.get(q) == Some(d.contains(&q) as u64), 3);
        check(u.rank1(q) == d.iter().filter(|x| **x < q).count() as u64, 4);
        check(u.rank0(q) == q - u.rank1(q), 5);
    }
    check(u.is_set(5000).is_none(), 6);
    for i in 0..3 {
        let want = d.get(i).copied().unwrap_or(5000);
        check(u.select1(i) as u64 == want, 7);
    }
    cover(1);
}
#[no_mangle]
pub fn h_sd_rmq() {
    let c = choose(0, 7);
    let n = [2usize, 140][(c / 4) as usize];
    fork(true);
    let mut d: Vec<u64> = (0..n as u64).map(|i| 100 + (i * 7919) % 97).collect();
    d[1] = any();
    d[n / 2] = any();
    let named = c % 2 == 1;
    let pairs = [(0, n - 1), (1, n / 2), (n / 2, n - 1), (0, 1), (n / 3, n / 2)];
    if (c / 2) % 2 == 0 {
        let a = BinaryRmq::from_vec(d.clone());
        let b = round(&a, named);
        for i in 0..n {
            check(b[i] == d[i], 1);
        }
        check(b.len() == n, 2);
        for (i, j) in pairs {
            check(d[b.range_min(i, j)] == d[a.range_min(i, j)], 3);
        }
    } else {
        let a = FastRmq::from_vec(d.clone());
        let b = round(&a, named);
        for i in 0..n {
            check(b[i] == d[i], 4);
        }
        check(b.len() == n, 5);
        for (i, j) in pairs {
            check(d[b.range_min(i, j)] == d[a.range_min(i, j)], 6);
        }
    }
    cover(1);
}
#[no_mangle]
pub fn h_sd_wm() {
    let c = choose(0, 7);
    let n = (c / 2) as usize;
    fork(true);
    let d: Vec<u64> = (0..n).map(|_| any_bits(3)).collect();
    let m = WaveletMatrix::from_slice(&d, 3);
    let u = round(&m, c % 2 == 1);
    check(u.len() == n, 1);
    check(u.bits_per_element() == 3, 2);
    let s = any_bits(3);
    for i in 0..n {
        check(opt_is(u.get_u64(i), true, d[i]), 3);
        check(u.get_sorted_u64(i) == m.get_sorted_u64(i), 4);
        check(u.select_u64(i, s) == m.select_u64(i, s), 5);
    }
    check(u.rank_u64(n, s) == m.rank_u64(n, s), 6);
    check(u.predecessor_u64(0..n, s) == m.predecessor_u64(0..n, s), 7);
    cover(1);
}
#[no_mangle]
pub fn h_sd_bp() {
    let c = choose(0, 13);
    let n = c / 2;
    fork(true);
    let mut v = BitVec::new();
    for _ in 0..n {
        v.append_bit(any_bits(1));
    }
    let t = BpTree::<2>::from_bit_vector(v);
    let u = round(&t, c % 2 == 1);
    check(u.size() == t.size() && u.root() == t.root(), 1);
    for i in 0..n as usize {
        for r in [-2, -1, 0, 1, 2] {
            check(u.fwd_search(i, r) == t.fwd_search(i, r), 2);
            check(u.bwd_search(i, r) == t.bwd_search(i, r), 3);
        }
        check(u.excess(i) == t.excess(i), 4);
        check(u.close(i) == t.close(i) && u.enclose(i) == t.enclose(i), 5);
    }
    check(u.level_leftmost(1) == t.level_leftmost(1) && u.level_rightmost(1) == t.level_rightmost(1), 6);
    if n > 0 && t.excess(0) == 1 {
        check(u.subtree_size(0) == t.subtree_size(0), 7);
    }
    let (a, b): (BitVec, BitVec) = (u.into(), t.into());
    check(a == b, 8);
    cover(1);
}
/// param0: size. The copy of a large structure of every kind answers as the original, with free values at one place
#[no_mangle]
pub fn h_sd_big() {
    let n = param(0) as usize;
    let c = choose(0, 13);
    let named = c % 2 == 1;
    fork(true);
    let f = any_bits(2);
    let at = n / 2;
    let spots: Vec<usize> = (0..24).map(|k| k * (n - 1) / 23).collect();
    match c / 2 {
        0 | 1 => {
            // buckets of a few / of very many values
            let mul = [3u64, 1 << 40][(c / 2) as usize];
            let mut d: Vec<u64> = (0..n as u64).map(|i| i * mul + 5).collect();
            d[at] += f % mul.min(3);
            let a = EliasFanoVec::from_slice(&d);
            let b = round(&a, named);
            check(b.len() == n, 1);
            for i in spots {
                check(b.get(i) == Some(d[i]), 2);
                for q in [d[i] - 1, d[i], d[i] + 1] {
                    check(b.predecessor(q) == a.predecessor(q) && b.successor(q) == a.successor(q) && b.rank(q) == a.rank(q), 3);
                }
                check(b.delta(i) == a.delta(i), 4);
            }
            check(b.get(n).is_none(), 5);
        }
        2 => {
            let mut d: Vec<u64> = (0..n as u64).map(|i| i * 70001 + 5).collect();
            d[at] += f;
            let len = n as u64 * 70001 + 1000;
            let a = SparseRSVec::new(&d, len);
            let b = round(&a, named);
            check(b.len() as u64 == len, 6);
            for i in spots {
                check(b.select1(i) as u64 == d[i], 7);
                for q in [d[i] - 1, d[i], d[i] + 1] {
                    check(b.rank1(q) == a.rank1(q) && b.rank0(q) == a.rank0(q) && b.get(q) == a.get(q), 8);
                }
            }
        }
        3 | 4 => {
            let mut d: Vec<u64> = (0..n as u64).map(|i| 1000 + (i * 7919) % 9973).collect();
            d[at] = 998 + f;
            let (x, y) = (BinaryRmq::from_vec(d.clone()), FastRmq::from_vec(d.clone()));
            if c / 2 == 3 {
                let b = round(&x, named);
                check(b.len() == n, 9);
                for &i in &spots {
                    check(b[i] == d[i], 10);
                    for &j in &spots {
                        check(i > j || d[b.range_min(i, j)] == d[x.range_min(i, j)], 11);
                    }
                }
            } else {
                let b = round(&y, named);
                check(b.len() == n, 12);
                for &i in &spots {
                    check(b[i] == d[i], 13);
                    for &j in &spots {
                        check(i > j || d[b.range_min(i, j)] == d[y.range_min(i, j)], 14);
                    }
                }
            }
        }
        5 => {
            let mut d: Vec<u64> = (0..n as u64).map(|i| crate::rsvec::bg(9, i) % 19).collect();
            d[at] = f;
            let a = WaveletMatrix::from_slice(&d, 64);
            let b = round(&a, named);
            check(b.len() == n && b.bits_per_element() == 64, 15);
            for i in spots {
                check(b.get_u64(i) == Some(d[i]), 16);
                check(b.rank_u64(i, 3) == a.rank_u64(i, 3) && b.rank_u64(i, f) == a.rank_u64(i, f), 17);
                check(b.select_u64(i / 40, 2) == a.select_u64(i / 40, 2), 18);
                check(b.get_sorted_u64(i) == a.get_sorted_u64(i), 19);
            }
        }
        _ => {
            // a comb: deep first half, then teeth; the free part changes one of them
            let mut v = BitVec::from_ones(at);
            v.append_bits([0b0101, 0b0011, 0b0101, 0b0011][f as usize], 4);
            for i in 0..at {
                v.append_bit(0);
                if i % 3 == 0 {
                    v.append_bits(1, 2);
                }
            }
            let t = BpTree::<512>::from_bit_vector(v);
            let u = round(&t, named);
            check(u.size() == t.size() && u.root() == t.root(), 20);
            for i in spots {
                check(u.excess(i) == t.excess(i), 21);
                for r in [-1, 1, 700] {
                    check(u.fwd_search(i, r) == t.fwd_search(i, r), 22);
                }
                for r in [0, -1, -700] {
                    check(u.bwd_search(i, r) == t.bwd_search(i, r), 23);
                }
                if i < at {
                    check(u.close(i) == t.close(i) && u.subtree_size(i) == t.subtree_size(i) && u.parent(i) == t.parent(i), 24);
                    check(u.level_rightmost(i as u64) == t.level_rightmost(i as u64), 25);
                }
            }
        }
    }
    cover(1);
}
