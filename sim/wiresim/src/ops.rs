//! Type-erased access to the real, generated types.

use std::{
    any::Any,
    collections::{HashMap, HashSet},
    hash::Hash,
    num::*,
};

use mabo::{
    NonZero,
    buf::{Decode, Encode, Error, Size},
};
use wiremodel::{DecErr, Value};

use crate::buf::{SimBuf, SimSink};

pub trait Dyn: Sized {
    fn from_value(v: &Value) -> Self;
    fn to_value(&self) -> Value;
    fn vec_from(v: &Value) -> Vec<Self> {
        let Value::List(l) = v else { panic!("not a list: {v:?}") };
        l.iter().map(Self::from_value).collect()
    }
    fn vec_to(v: &[Self]) -> Value {
        Value::List(v.iter().map(Self::to_value).collect())
    }
}

macro_rules! ints {
    ($($t:ty, $nz:ty, $v:ident, $w:ty);+ $(;)?) => {$(
        impl Dyn for $t {
            fn from_value(v: &Value) -> Self { let Value::$v(u) = v else { panic!("not an int: {v:?}") }; *u as $t }
            fn to_value(&self) -> Value { Value::$v(*self as $w) }
        }
        impl Dyn for $nz {
            fn from_value(v: &Value) -> Self { <$nz>::new(Dyn::from_value(v)).expect("non-zero") }
            fn to_value(&self) -> Value { self.get().to_value() }
        }
    )+};
}

ints! {
    u16, NonZeroU16, U, u128; u32, NonZeroU32, U, u128; u64, NonZeroU64, U, u128; u128, NonZeroU128, U, u128;
    i8, NonZeroI8, I, i128; i16, NonZeroI16, I, i128; i32, NonZeroI32, I, i128; i64, NonZeroI64, I, i128;
    i128, NonZeroI128, I, i128;
}

impl Dyn for u8 {
    fn from_value(v: &Value) -> Self {
        let Value::U(u) = v else { panic!("not an int: {v:?}") };
        *u as u8
    }
    fn to_value(&self) -> Value {
        Value::U(u128::from(*self))
    }
    fn vec_from(v: &Value) -> Vec<Self> {
        let Value::Bytes(b) = v else { panic!("not bytes: {v:?}") };
        b.clone()
    }
    fn vec_to(v: &[Self]) -> Value {
        Value::Bytes(v.to_vec())
    }
}

impl Dyn for NonZeroU8 {
    fn from_value(v: &Value) -> Self {
        Self::new(Dyn::from_value(v)).expect("non-zero")
    }
    fn to_value(&self) -> Value {
        self.get().to_value()
    }
}

impl Dyn for bool {
    fn from_value(v: &Value) -> Self {
        let Value::Bool(b) = v else { panic!("not a bool: {v:?}") };
        *b
    }
    fn to_value(&self) -> Value {
        Value::Bool(*self)
    }
}

impl Dyn for f32 {
    fn from_value(v: &Value) -> Self {
        let Value::F32(b) = v else { panic!("not a float: {v:?}") };
        f32::from_bits(*b)
    }
    fn to_value(&self) -> Value {
        Value::F32(self.to_bits())
    }
}

impl Dyn for f64 {
    fn from_value(v: &Value) -> Self {
        let Value::F64(b) = v else { panic!("not a float: {v:?}") };
        f64::from_bits(*b)
    }
    fn to_value(&self) -> Value {
        Value::F64(self.to_bits())
    }
}

impl Dyn for String {
    fn from_value(v: &Value) -> Self {
        let Value::Str(s) = v else { panic!("not a string: {v:?}") };
        s.clone()
    }
    fn to_value(&self) -> Value {
        Value::Str(self.clone())
    }
}

impl Dyn for Box<str> {
    fn from_value(v: &Value) -> Self {
        String::from_value(v).into_boxed_str()
    }
    fn to_value(&self) -> Value {
        Value::Str(self.as_ref().to_owned())
    }
}

impl Dyn for Box<[u8]> {
    fn from_value(v: &Value) -> Self {
        u8::vec_from(v).into_boxed_slice()
    }
    fn to_value(&self) -> Value {
        Value::Bytes(self.to_vec())
    }
}

impl Dyn for bytes::Bytes {
    fn from_value(v: &Value) -> Self {
        u8::vec_from(v).into()
    }
    fn to_value(&self) -> Value {
        Value::Bytes(self.to_vec())
    }
}

impl<T: Dyn> Dyn for Vec<T> {
    fn from_value(v: &Value) -> Self {
        T::vec_from(v)
    }
    fn to_value(&self) -> Value {
        T::vec_to(self)
    }
}

impl<K: Dyn + Hash + Eq, V: Dyn> Dyn for HashMap<K, V> {
    fn from_value(v: &Value) -> Self {
        let Value::Map(l) = v else { panic!("not a map: {v:?}") };
        l.iter().map(|(k, v)| (K::from_value(k), V::from_value(v))).collect()
    }
    fn to_value(&self) -> Value {
        Value::Map(self.iter().map(|(k, v)| (k.to_value(), v.to_value())).collect())
    }
}

impl<T: Dyn + Hash + Eq> Dyn for HashSet<T> {
    fn from_value(v: &Value) -> Self {
        let Value::Set(l) = v else { panic!("not a set: {v:?}") };
        l.iter().map(T::from_value).collect()
    }
    fn to_value(&self) -> Value {
        Value::Set(self.iter().map(T::to_value).collect())
    }
}

impl<T: Dyn> Dyn for Option<T> {
    fn from_value(v: &Value) -> Self {
        match v {
            Value::None => None,
            Value::Some(v) => Some(T::from_value(v)),
            _ => panic!("not an option: {v:?}"),
        }
    }
    fn to_value(&self) -> Value {
        self.as_ref().map_or(Value::None, |v| Value::Some(Box::new(v.to_value())))
    }
}

impl<const N: usize, T: Dyn> Dyn for [T; N] {
    fn from_value(v: &Value) -> Self {
        let Value::List(l) = v else { panic!("not a list: {v:?}") };
        std::array::from_fn(|i| T::from_value(&l[i]))
    }
    fn to_value(&self) -> Value {
        Value::List(self.iter().map(T::to_value).collect())
    }
}

macro_rules! tuples {
    ($(($($t:ident $i:tt),+))+) => {$(
        impl<$($t: Dyn),+> Dyn for ($($t,)+) {
            fn from_value(v: &Value) -> Self {
                let Value::List(l) = v else { panic!("not a tuple: {v:?}") };
                ($($t::from_value(&l[$i]),)+)
            }
            fn to_value(&self) -> Value { Value::List(vec![$(self.$i.to_value()),+]) }
        }
    )+};
}

tuples! {
    (A 0, B 1)
    (A 0, B 1, C 2)
    (A 0, B 1, C 2, D 3)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11)
}

macro_rules! non_zero {
    ($($t:ty $(, $($g:ident $(: $b:path)*),+)?);+ $(;)?) => {$(
        impl $(<$($g: Dyn $(+ $b)*),+>)? Dyn for NonZero<$t> {
            fn from_value(v: &Value) -> Self { NonZero::<$t>::new(Dyn::from_value(v)).expect("non-zero") }
            fn to_value(&self) -> Value { self.get().to_value() }
        }
    )+};
}

non_zero! {
    String;
    bytes::Bytes;
    Vec<T>, T;
    HashMap<K, V>, K: Hash: Eq, V;
    HashSet<T>, T: Hash: Eq;
}

impl<T: Dyn> Dyn for std::rc::Rc<T> {
    fn from_value(v: &Value) -> Self {
        std::rc::Rc::new(T::from_value(v))
    }
    fn to_value(&self) -> Value {
        T::to_value(self)
    }
}

impl<T: Dyn> Dyn for std::sync::Arc<T> {
    fn from_value(v: &Value) -> Self {
        std::sync::Arc::new(T::from_value(v))
    }
    fn to_value(&self) -> Value {
        T::to_value(self)
    }
}

impl<T: Dyn + Clone> Dyn for std::borrow::Cow<'static, T> {
    fn from_value(v: &Value) -> Self {
        std::borrow::Cow::Owned(T::from_value(v))
    }
    fn to_value(&self) -> Value {
        T::to_value(self)
    }
}

/// A live value of a real type.
pub trait Obj {
    fn value(&self) -> Value;
    fn encode_vec(&self) -> Vec<u8>;
    fn encode_sink(&self, s: &mut SimSink);
    fn size(&self) -> usize;
    fn same(&self, other: &dyn Obj) -> bool;
    fn any(&self) -> &dyn Any;
}

struct Holder<T>(T);

impl<T: Dyn + Encode + Size + PartialEq + 'static> Obj for Holder<T> {
    fn value(&self) -> Value {
        self.0.to_value()
    }
    fn encode_vec(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.0.encode(&mut v);
        v
    }
    fn encode_sink(&self, s: &mut SimSink) {
        self.0.encode(s);
    }
    fn size(&self) -> usize {
        Size::size(&self.0)
    }
    fn same(&self, other: &dyn Obj) -> bool {
        other.any().downcast_ref::<T>().is_some_and(|o| *o == self.0)
    }
    fn any(&self) -> &dyn Any {
        &self.0
    }
}

pub struct Ops {
    pub name: &'static str,
    pub mem: usize,
    pub make: fn(&Value) -> Box<dyn Obj>,
    pub decode: fn(&mut SimBuf<'_>) -> Result<Box<dyn Obj>, DecErr>,
}

pub fn ops<T: Dyn + Encode + Decode + Size + PartialEq + 'static>() -> Ops {
    Ops {
        name: std::any::type_name::<T>(),
        mem: std::mem::size_of::<T>(),
        make: |v| Box::new(Holder(T::from_value(v))),
        decode: |b| match T::decode(b) {
            Ok(v) => Ok(Box::new(Holder(v))),
            Err(e) => Err(match e {
                Error::InsufficientData => DecErr::Insufficient,
                Error::DecodeInt(_) => DecErr::Int,
                Error::NonUtf8(_) => DecErr::NonUtf8,
                Error::MissingField { id, name } => DecErr::Missing(id, name.map(str::to_owned)),
                Error::UnknownVariant(id) => DecErr::UnknownVariant(id),
                Error::UnknownEncoding(_) => DecErr::UnknownEncoding,
                Error::Zero => DecErr::Zero,
            }),
        },
    }
}
