//! C30: serialising and deserialising the containers, with a serializer that records what it is given and a
//! deserializer that replays such a record.
use crate::rt::*;
use crate::vsrc::no_leak;
use futures_signals::signal::Mutable;
use futures_signals::signal_map::MutableBTreeMap;
use futures_signals::signal_vec::MutableVec;
use serde::de::{DeserializeSeed, Deserializer, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{Impossible, Serialize, SerializeMap, SerializeSeq, Serializer};
use serde::Deserialize;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq)]
enum Tok {
    Num(u32),
    Seq(usize),
    Map(usize),
    Unit,
    End,
}
#[derive(Debug)]
struct Er;
impl std::fmt::Display for Er {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Er {}
impl serde::ser::Error for Er {
    fn custom<T: std::fmt::Display>(_: T) -> Er {
        Er
    }
}
impl serde::de::Error for Er {
    fn custom<T: std::fmt::Display>(_: T) -> Er {
        Er
    }
}
/// records what it is given; fails after `left` numbers
struct Rec<'a> {
    out: &'a mut Vec<Tok>,
    left: &'a mut usize,
}
type Imp = Impossible<(), Er>;
macro_rules! no {
    ($($f:ident($($t:ty),*) -> $r:ty;)*) => { $(fn $f(self, $(_: $t),*) -> Result<$r, Er> { fail("serde: the container is not presented as its contents") })* };
}
impl<'a> Serializer for Rec<'a> {
    type Ok = ();
    type Error = Er;
    type SerializeSeq = Self;
    type SerializeMap = Self;
    type SerializeTuple = Imp;
    type SerializeTupleStruct = Imp;
    type SerializeTupleVariant = Imp;
    type SerializeStruct = Imp;
    type SerializeStructVariant = Imp;
    fn serialize_u32(self, v: u32) -> Result<(), Er> {
        if *self.left == 0 {
            return Err(Er);
        }
        *self.left -= 1;
        self.out.push(Tok::Num(v));
        Ok(())
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Er> {
        self.out.push(Tok::Seq(n.unwrap_or(99)));
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, Er> {
        self.out.push(Tok::Map(n.unwrap_or(99)));
        Ok(self)
    }
    fn serialize_none(self) -> Result<(), Er> {
        self.out.push(Tok::Unit);
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Er> {
        v.serialize(self)
    }
    no! {
        serialize_bool(bool) -> ();
        serialize_i8(i8) -> ();
        serialize_i16(i16) -> ();
        serialize_i32(i32) -> ();
        serialize_i64(i64) -> ();
        serialize_u8(u8) -> ();
        serialize_u16(u16) -> ();
        serialize_u64(u64) -> ();
        serialize_f32(f32) -> ();
        serialize_f64(f64) -> ();
        serialize_char(char) -> ();
        serialize_str(&str) -> ();
        serialize_bytes(&[u8]) -> ();
        serialize_unit() -> ();
        serialize_unit_struct(&'static str) -> ();
        serialize_unit_variant(&'static str, u32, &'static str) -> ();
        serialize_tuple(usize) -> Imp;
        serialize_tuple_struct(&'static str, usize) -> Imp;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Imp;
        serialize_struct(&'static str, usize) -> Imp;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> Imp;
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<(), Er> {
        fail("serde: the container is not presented as its contents")
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Er> {
        fail("serde: the container is not presented as its contents")
    }
}
impl<'a> SerializeSeq for Rec<'a> {
    type Ok = ();
    type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> {
        v.serialize(Rec { out: self.out, left: self.left })
    }
    fn end(self) -> Result<(), Er> {
        self.out.push(Tok::End);
        Ok(())
    }
}
impl<'a> SerializeMap for Rec<'a> {
    type Ok = ();
    type Error = Er;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> {
        v.serialize(Rec { out: self.out, left: self.left })
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> {
        v.serialize(Rec { out: self.out, left: self.left })
    }
    fn end(self) -> Result<(), Er> {
        self.out.push(Tok::End);
        Ok(())
    }
}
fn ser<T: Serialize>(t: &T, limit: usize) -> (Vec<Tok>, bool) {
    let mut out = vec![];
    let mut left = limit;
    let r = t.serialize(Rec { out: &mut out, left: &mut left });
    (out, r.is_ok())
}
/// the container must do to the serializer what the plain value does, errors included
fn same_ser<A: Serialize, B: Serialize>(a: &A, b: &B) {
    let limit = pick(0, 5);
    let (x, rx) = ser(a, limit);
    let (y, ry) = ser(b, limit);
    check(rx == ry, "serde: an error of the serializer is not reported");
    check(x.len() == y.len(), "serde: the container is not presented as its contents");
    let mut ok = true;
    for i in 0..x.len() {
        ok &= match (x[i], y[i]) {
            (Tok::Num(a), Tok::Num(b)) => a == b,
            (a, b) => a == b,
        };
    }
    check(ok, "serde: the container is not presented as its contents");
}

/// replays numbers as a sequence, a map or one value
struct Play<'a> {
    nums: &'a [u32],
    /// fails in front of this number
    fail_at: usize,
    map: bool,
    pos: usize,
}
impl<'a> Play<'a> {
    fn num<'de, S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, Er> {
        if self.pos == self.fail_at {
            return Err(Er);
        }
        let d: serde::de::value::U32Deserializer<Er> = self.nums[self.pos].into_deserializer();
        self.pos += 1;
        s.deserialize(d)
    }
}
impl<'de, 'a> SeqAccess<'de> for Play<'a> {
    type Error = Er;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Er> {
        if self.pos == self.nums.len() && self.pos != self.fail_at {
            return Ok(None);
        }
        self.num(s).map(Some)
    }
}
impl<'de, 'a> MapAccess<'de> for Play<'a> {
    type Error = Er;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Er> {
        if self.pos == self.nums.len() && self.pos != self.fail_at {
            return Ok(None);
        }
        self.num(s).map(Some)
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, Er> {
        self.num(s)
    }
}
impl<'de, 'a> Deserializer<'de> for Play<'a> {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        if self.map {
            v.visit_map(self)
        } else {
            v.visit_seq(self)
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
/// params: elements at most
#[no_mangle]
pub extern "C" fn h_serde() {
    no_leak(|| {
        let n = pick(0, param(0));
        let nums: Vec<u32> = (0..n).map(|_| any_u32()).collect();
        match pick(0, 6) {
            0 => {
                let x = any_u32();
                let m = Mutable::new(x);
                same_ser(&m, &x);
                let d: serde::de::value::U32Deserializer<Er> = x.into_deserializer();
                let m = Mutable::<u32>::deserialize(d);
                check(m.is_ok() && m.unwrap().get() == x, "serde: deserialising a Mutable loses its value");
            }
            1 => {
                // the current value, not the first one
                let m = Mutable::new(nums.clone());
                let m2 = m.clone();
                let other = vec![any_u32()];
                m2.set(other.clone());
                same_ser(&m, &other);
                m2.set(nums.clone());
                same_ser(&m, &nums);
            }
            2 => {
                let m = MutableVec::new_with_values(nums.clone());
                same_ser(&m, &nums);
                m.lock_mut().push(7);
                let mut v = nums.clone();
                v.push(7);
                same_ser(&m.clone(), &v);
            }
            3 => {
                let mut b = BTreeMap::new();
                for c in nums.chunks(2) {
                    if c.len() == 2 {
                        b.insert(c[0], c[1]);
                    }
                }
                let m = MutableBTreeMap::with_values(b.clone());
                same_ser(&m, &b);
                m.lock_mut().insert(5, 6);
                b.insert(5, 6);
                same_ser(&m.clone(), &b);
            }
            4 => {
                let fail_at = pick(0, n + 1);
                let r = MutableVec::<u32>::deserialize(Play { nums: &nums, fail_at, map: false, pos: 0 });
                check(r.is_err() == (fail_at <= n), "serde: an error of the deserializer is not reported");
                if let Ok(m) = r {
                    let l = m.lock_ref();
                    crate::vecs::same(&l, &nums, "serde: deserialising a MutableVec changes its contents");
                }
            }
            5 => {
                let nums = &nums[..n / 2 * 2];
                let fail_at = pick(0, nums.len() + 1);
                let r = MutableBTreeMap::<u32, u32>::deserialize(Play { nums, fail_at, map: true, pos: 0 });
                check(r.is_err() == (fail_at <= nums.len()), "serde: an error of the deserializer is not reported");
                if let Ok(m) = r {
                    let mut b = BTreeMap::new();
                    for c in nums.chunks(2) {
                        b.insert(c[0], c[1]);
                    }
                    let l = m.lock_ref();
                    check(l.len() == b.len(), "serde: deserialising a MutableBTreeMap changes its contents");
                    let mut ok = true;
                    for (k, v) in l.iter() {
                        ok &= b.get(k) == Some(v);
                    }
                    check(ok, "serde: deserialising a MutableBTreeMap changes its contents");
                }
            }
            _ => {
                let fail_at = pick(0, n + 1);
                let r = Mutable::<Vec<u32>>::deserialize(Play { nums: &nums, fail_at, map: false, pos: 0 });
                check(r.is_err() == (fail_at <= n), "serde: an error of the deserializer is not reported");
                if let Ok(m) = r {
                    crate::vecs::same(&m.lock_ref(), &nums, "serde: deserialising a Mutable changes its value");
                }
            }
        }
        cover("end");
    })
}
