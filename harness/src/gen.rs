//! Scripts of steps. Some of them use only a random subset of the kinds of steps
//! ("swarm testing"): long runs of one operation, histories without any poll,
//! without any removal and so on are then common. A few scripts are very long,
//! and some repeat a few steps up to hundreds of times, also exactly so often that
//! counters of 8 bits wrap around.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::ser::{self, Impossible, Serialize};
use std::fmt::Debug;

/// Scripts with mostly fewer than `common`, sometimes up to `rare` steps.
pub fn script<S>(step: S, common: usize, rare: usize) -> impl Strategy<Value = Vec<S::Value>>
where
    S: Strategy + 'static,
    S::Value: Serialize + Clone + Debug + 'static,
{
    let step = step.boxed();
    let mask = || prop_oneof![2 => any::<u64>(), 1 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| a & b)];
    let subset = |(mask, steps): (u64, Vec<S::Value>)| -> Vec<S::Value> { steps.into_iter().filter(|s| mask >> class(s) & 1 == 1).collect() };
    prop_oneof![
        240 => vec(step.clone(), 0..common),
        20 => vec(step.clone(), 0..rare),
        60 => (mask(), vec(step.clone(), 0..2 * common)).prop_map(subset),
        3 => (mask(), vec(step.clone(), 0..600)).prop_map(subset),
        5 => (vec(step.clone(), 0..12), vec(step.clone(), 1..4), repetitions(), vec(step, 0..12)).prop_map(|(mut out, block, n, tail)| {
            // no more than 600 steps, fewer if they are large
            let weight = block.len().max(serde_json::to_string(&block).map_or(0, |s| s.len() / 12));
            out.extend((0..n.min(600 / weight)).flat_map(|_| block.iter().cloned()));
            out.extend(tail);
            out
        }),
    ]
}

/// How often something is repeated: mostly a few times, sometimes around a power of two.
fn repetitions() -> impl Strategy<Value = usize> {
    prop_oneof![6 => 2usize..20, 2 => (4u32..8, 0usize..5).prop_map(|(e, d)| (1 << e) + d - 2), 2 => 253usize..259, 1 => 20usize..520]
}

/// The kind of a step: its variant and the one inside of it.
pub fn class<T: Serialize>(step: &T) -> u32 {
    step.serialize(Class).unwrap_or(0) % 64
}

fn outer(variant: u32, inner: u32) -> u32 {
    (variant + 1).wrapping_mul(37).wrapping_add(inner.wrapping_mul(11)) & 0xffff
}

struct Class;

#[derive(Debug)]
struct Never;
impl std::fmt::Display for Never {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("never")
    }
}
impl std::error::Error for Never {}
impl ser::Error for Never {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Never
    }
}

/// The first element which has a kind.
struct First(u32);

impl First {
    fn see<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Never> {
        if self.0 == 0 {
            self.0 = v.serialize(Class)?;
        }
        Ok(())
    }
}
impl ser::SerializeSeq for First {
    type Ok = u32;
    type Error = Never;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Never> {
        self.see(v)
    }
    fn end(self) -> Result<u32, Never> {
        Ok(self.0)
    }
}
impl ser::SerializeTuple for First {
    type Ok = u32;
    type Error = Never;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Never> {
        self.see(v)
    }
    fn end(self) -> Result<u32, Never> {
        Ok(self.0)
    }
}

/// Only the variant counts.
struct Rest(u32);
impl ser::SerializeTupleVariant for Rest {
    type Ok = u32;
    type Error = Never;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), Never> {
        Ok(())
    }
    fn end(self) -> Result<u32, Never> {
        Ok(self.0)
    }
}
impl ser::SerializeStructVariant for Rest {
    type Ok = u32;
    type Error = Never;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, _: &T) -> Result<(), Never> {
        Ok(())
    }
    fn end(self) -> Result<u32, Never> {
        Ok(self.0)
    }
}

macro_rules! plain {
    ($($f:ident: $t:ty),*) => { $(fn $f(self, _: $t) -> Result<u32, Never> { Ok(0) })* };
}

impl ser::Serializer for Class {
    type Ok = u32;
    type Error = Never;
    type SerializeSeq = First;
    type SerializeTuple = First;
    type SerializeTupleStruct = Impossible<u32, Never>;
    type SerializeTupleVariant = Rest;
    type SerializeMap = Impossible<u32, Never>;
    type SerializeStruct = Impossible<u32, Never>;
    type SerializeStructVariant = Rest;
    plain!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u8: u8, serialize_u16: u16,
        serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_f64: f64, serialize_char: char, serialize_str: &str, serialize_bytes: &[u8],
        serialize_unit_struct: &'static str);
    fn serialize_none(self) -> Result<u32, Never> {
        Ok(0)
    }
    fn serialize_unit(self) -> Result<u32, Never> {
        Ok(0)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<u32, Never> {
        v.serialize(Class)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<u32, Never> {
        Ok(outer(i, 0))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<u32, Never> {
        v.serialize(Class)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<u32, Never> {
        Ok(outer(i, v.serialize(Class)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<First, Never> {
        Ok(First(0))
    }
    fn serialize_tuple(self, _: usize) -> Result<First, Never> {
        Ok(First(0))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Never> {
        Err(Never)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Rest, Never> {
        Ok(Rest(outer(i, 0)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Never> {
        Err(Never)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Never> {
        Err(Never)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Rest, Never> {
        Ok(Rest(outer(i, 0)))
    }
}
