//! Dynamic target types: a `Ty` can deserialize into a `Val` exactly as a serde-derived type
//! of that shape would, and a `Val` serializes exactly as the derived type would.
use crate::fw::Rng;
use crate::gen;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Value};
use std::fmt;

pub static FIELDS: &[&str] = &["alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "k", "a", "b", "true", "null", "1", "x y"];
pub static VARIANTS: &[&str] = &["Alpha", "Beta", "Gamma", "Delta", "A", "B", "int", "Zed"];

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool, I8, I16, I32, I64, I128, U8, U16, U32, U64, U128, F32, F64, Char, Str, Bytes, Unit, UnitStruct, Ignored, Any,
    Opt(Box<Ty>), Newtype(Box<Ty>), Seq(Box<Ty>), Tuple(Vec<Ty>), TupleStruct(Vec<Ty>), Map(Box<Ty>, Box<Ty>),
    Struct(usize, Vec<Ty>, bool),
    Enum(usize, Vec<VTy>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum VTy { Unit, Newtype(Ty), Tuple(Vec<Ty>), Struct(usize, Vec<Ty>) }

#[derive(Clone, Debug)]
pub enum Val {
    Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), F32(f32), F64(f64),
    Char(char), Str(String), Bytes(Vec<u8>), Unit, UnitStruct, Ignored, Any(Value),
    None, Some(Box<Val>), Newtype(Box<Val>), Seq(Vec<Val>, bool), Tuple(Vec<Val>), TupleStruct(Vec<Val>), Map(Vec<(Val, Val)>, MapStyle),
    Struct(usize, Vec<Val>),
    Enum(usize, usize, Box<VVal>),
}
#[derive(Clone, Debug)]
pub enum VVal { Unit, Newtype(Val), Tuple(Vec<Val>), Struct(usize, Vec<Val>) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MapStyle { Entry, KeyValue, Unsized }

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        use Val::*;
        match (self, o) {
            (Bool(a), Bool(b)) => a == b, (I8(a), I8(b)) => a == b, (I16(a), I16(b)) => a == b, (I32(a), I32(b)) => a == b, (I64(a), I64(b)) => a == b, (I128(a), I128(b)) => a == b,
            (U8(a), U8(b)) => a == b, (U16(a), U16(b)) => a == b, (U32(a), U32(b)) => a == b, (U64(a), U64(b)) => a == b, (U128(a), U128(b)) => a == b,
            (F32(a), F32(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
            (F64(a), F64(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
            (Char(a), Char(b)) => a == b, (Str(a), Str(b)) => a == b, (Bytes(a), Bytes(b)) => a == b,
            (Unit, Unit) | (UnitStruct, UnitStruct) | (Ignored, Ignored) | (None, None) => true,
            (Any(a), Any(b)) => gen::same(a, b),
            (Some(a), Some(b)) | (Newtype(a), Newtype(b)) => a == b,
            (Seq(a, _), Seq(b, _)) | (Tuple(a), Tuple(b)) | (TupleStruct(a), TupleStruct(b)) => a == b,
            (Map(a, _), Map(b, _)) => a == b,
            (Struct(_, a), Struct(_, b)) => a == b,
            (Enum(_, i, a), Enum(_, j, b)) => i == j && match (&**a, &**b) {
                (VVal::Unit, VVal::Unit) => true,
                (VVal::Newtype(x), VVal::Newtype(y)) => x == y,
                (VVal::Tuple(x), VVal::Tuple(y)) => x == y,
                (VVal::Struct(_, x), VVal::Struct(_, y)) => x == y,
                _ => false,
            },
            _ => false,
        }
    }
}

// ------------------------------------------------------------------ serialization
impl Serialize for Val {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Val::Bool(v) => s.serialize_bool(*v), Val::I8(v) => s.serialize_i8(*v), Val::I16(v) => s.serialize_i16(*v), Val::I32(v) => s.serialize_i32(*v),
            Val::I64(v) => s.serialize_i64(*v), Val::I128(v) => s.serialize_i128(*v), Val::U8(v) => s.serialize_u8(*v), Val::U16(v) => s.serialize_u16(*v),
            Val::U32(v) => s.serialize_u32(*v), Val::U64(v) => s.serialize_u64(*v), Val::U128(v) => s.serialize_u128(*v), Val::F32(v) => s.serialize_f32(*v), Val::F64(v) => s.serialize_f64(*v),
            Val::Char(v) => s.serialize_char(*v), Val::Str(v) => s.serialize_str(v), Val::Bytes(v) => s.serialize_bytes(v),
            Val::Unit | Val::Ignored => s.serialize_unit(), Val::UnitStruct => s.serialize_unit_struct("US"), Val::Any(v) => v.serialize(s),
            Val::None => s.serialize_none(), Val::Some(v) => s.serialize_some(&**v), Val::Newtype(v) => s.serialize_newtype_struct("NT", &**v),
            Val::Seq(v, sized) => { let mut q = s.serialize_seq(if *sized { Some(v.len()) } else { None })?; for x in v { q.serialize_element(x)?; } q.end() }
            Val::Tuple(v) => { let mut q = s.serialize_tuple(v.len())?; for x in v { q.serialize_element(x)?; } q.end() }
            Val::TupleStruct(v) => { let mut q = s.serialize_tuple_struct("TS", v.len())?; for x in v { q.serialize_field(x)?; } q.end() }
            Val::Map(v, st) => {
                let mut q = s.serialize_map(if *st == MapStyle::Unsized { None } else { Some(v.len()) })?;
                for (k, x) in v {
                    if *st == MapStyle::KeyValue { q.serialize_key(k)?; q.serialize_value(x)?; } else { q.serialize_entry(k, x)?; }
                }
                q.end()
            }
            Val::Struct(base, v) => { let mut q = s.serialize_struct("ST", v.len())?; for (i, x) in v.iter().enumerate() { q.serialize_field(FIELDS[base + i], x)?; } q.end() }
            Val::Enum(base, i, v) => {
                let name = VARIANTS[base + i];
                match &**v {
                    VVal::Unit => s.serialize_unit_variant("E", *i as u32, name),
                    VVal::Newtype(x) => s.serialize_newtype_variant("E", *i as u32, name, x),
                    VVal::Tuple(v) => { let mut q = s.serialize_tuple_variant("E", *i as u32, name, v.len())?; for x in v { q.serialize_field(x)?; } q.end() }
                    VVal::Struct(fb, v) => { let mut q = s.serialize_struct_variant("E", *i as u32, name, v.len())?; for (j, x) in v.iter().enumerate() { q.serialize_field(FIELDS[fb + j], x)?; } q.end() }
                }
            }
        }
    }
}

/// what the model of YAML data says the value is; None when it has no faithful Value (bytes, wide ints, nested tags)
pub fn model(v: &Val) -> Option<Value> { model_t(v, false) }
fn model_t(v: &Val, tagged: bool) -> Option<Value> {
    let num = |n: i128| -> Option<Value> { if let Ok(x) = u64::try_from(n) { Some(Value::Number(x.into())) } else if let Ok(x) = i64::try_from(n) { Some(Value::Number(x.into())) } else { None } };
    let tag = |name: &str, v: Value| Some(Value::Tagged(Box::new(TaggedValue { tag: Tag::new(name), value: v })));
    let seq = |v: &Vec<Val>| -> Option<Value> { v.iter().map(|x| model_t(x, false)).collect::<Option<Vec<_>>>().map(Value::Sequence) };
    let st = |base: usize, v: &Vec<Val>| -> Option<Value> {
        let mut m = Mapping::new();
        for (i, x) in v.iter().enumerate() { m.insert(Value::String(FIELDS[base + i].to_owned()), model_t(x, false)?); }
        Some(Value::Mapping(m))
    };
    match v {
        Val::Bool(b) => Some(Value::Bool(*b)),
        Val::I8(n) => num(*n as i128), Val::I16(n) => num(*n as i128), Val::I32(n) => num(*n as i128), Val::I64(n) => num(*n as i128), Val::I128(n) => num(*n),
        Val::U8(n) => num(*n as i128), Val::U16(n) => num(*n as i128), Val::U32(n) => num(*n as i128), Val::U64(n) => num(*n as i128),
        Val::U128(n) => u64::try_from(*n).ok().map(|x| Value::Number(x.into())),
        // the text of an f32 is its shortest decimal: as a Value it denotes that decimal
        Val::F32(x) => if x.is_nan() { Some(Value::Number(f64::NAN.into())) } else { Some(Value::Number((*x as f64).into())) },
        Val::F64(x) => Some(Value::Number((*x).into())),
        Val::Char(c) => Some(Value::String(c.to_string())), Val::Str(s) => Some(Value::String(s.clone())), Val::Bytes(_) => None,
        Val::Unit | Val::UnitStruct | Val::Ignored | Val::None => Some(Value::Null),
        Val::Any(v) => if tagged && matches!(v, Value::Tagged(_)) { None } else { Some(v.clone()) },
        Val::Some(v) | Val::Newtype(v) => model_t(v, tagged),
        Val::Seq(v, _) | Val::Tuple(v) | Val::TupleStruct(v) => seq(v),
        Val::Map(v, _) => {
            let mut m = Mapping::new();
            for (k, x) in v { if m.insert(model_t(k, false)?, model_t(x, false)?).is_some() { return None; } }
            Some(Value::Mapping(m))
        }
        Val::Struct(b, v) => st(*b, v),
        Val::Enum(b, i, x) => {
            let name = VARIANTS[b + i];
            match &**x {
                VVal::Unit => Some(Value::String(name.to_owned())),
                _ if tagged => None,
                VVal::Newtype(x) => tag(name, model_t(x, true)?),
                VVal::Tuple(v) => tag(name, seq(v)?),
                VVal::Struct(fb, v) => tag(name, st(*fb, v)?),
            }
        }
    }
}
/// a tag directly inside a tag: the text serializer must refuse it
pub fn nested_tag(v: &Val, tagged: bool) -> bool {
    match v {
        Val::Any(v) => nested_tag_v(v, tagged),
        Val::Some(v) | Val::Newtype(v) => nested_tag(v, tagged),
        Val::Seq(v, _) | Val::Tuple(v) | Val::TupleStruct(v) | Val::Struct(_, v) => v.iter().any(|x| nested_tag(x, false)),
        Val::Map(v, _) => v.iter().any(|(k, x)| nested_tag(k, false) || nested_tag(x, false)),
        Val::Enum(_, _, x) => match &**x {
            VVal::Unit => false,
            _ if tagged => true,
            VVal::Newtype(x) => nested_tag(x, true),
            VVal::Tuple(v) | VVal::Struct(_, v) => v.iter().any(|x| nested_tag(x, false)),
        },
        _ => false,
    }
}
pub fn nested_tag_v(v: &Value, tagged: bool) -> bool {
    match v {
        Value::Tagged(t) => tagged || nested_tag_v(&t.value, true),
        Value::Sequence(s) => s.iter().any(|x| nested_tag_v(x, false)),
        Value::Mapping(m) => m.iter().any(|(k, x)| nested_tag_v(k, false) || nested_tag_v(x, false)),
        _ => false,
    }
}
pub fn any_val(v: &Val, f: &dyn Fn(&Val) -> bool) -> bool {
    if f(v) { return true; }
    match v {
        Val::Some(v) | Val::Newtype(v) => any_val(v, f),
        Val::Seq(v, _) | Val::Tuple(v) | Val::TupleStruct(v) | Val::Struct(_, v) => v.iter().any(|x| any_val(x, f)),
        Val::Map(v, _) => v.iter().any(|(k, x)| any_val(k, f) || any_val(x, f)),
        Val::Enum(_, _, x) => match &**x { VVal::Unit => false, VVal::Newtype(x) => any_val(x, f), VVal::Tuple(v) | VVal::Struct(_, v) => v.iter().any(|x| any_val(x, f)) },
        _ => false,
    }
}

// ------------------------------------------------------------------ deserialization
pub struct Seed<'a>(pub &'a Ty);
impl<'a, 'de> DeserializeSeed<'de> for Seed<'a> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        use serde::Deserialize as De;
        match self.0 {
            Ty::Bool => De::deserialize(d).map(Val::Bool), Ty::I8 => De::deserialize(d).map(Val::I8), Ty::I16 => De::deserialize(d).map(Val::I16), Ty::I32 => De::deserialize(d).map(Val::I32),
            Ty::I64 => De::deserialize(d).map(Val::I64), Ty::I128 => De::deserialize(d).map(Val::I128), Ty::U8 => De::deserialize(d).map(Val::U8), Ty::U16 => De::deserialize(d).map(Val::U16),
            Ty::U32 => De::deserialize(d).map(Val::U32), Ty::U64 => De::deserialize(d).map(Val::U64), Ty::U128 => De::deserialize(d).map(Val::U128), Ty::F32 => De::deserialize(d).map(Val::F32), Ty::F64 => De::deserialize(d).map(Val::F64),
            Ty::Char => De::deserialize(d).map(Val::Char), Ty::Str => De::deserialize(d).map(Val::Str), Ty::Bytes => d.deserialize_byte_buf(BytesV),
            Ty::Unit => De::deserialize(d).map(|()| Val::Unit), Ty::UnitStruct => d.deserialize_unit_struct("US", UnitV),
            Ty::Ignored => serde::de::IgnoredAny::deserialize(d).map(|_| Val::Ignored), Ty::Any => De::deserialize(d).map(Val::Any),
            Ty::Opt(t) => d.deserialize_option(OptV(t)), Ty::Newtype(t) => d.deserialize_newtype_struct("NT", NewV(t)),
            Ty::Seq(t) => d.deserialize_seq(SeqV(t)),
            Ty::Tuple(t) => d.deserialize_tuple(t.len(), TupV(t, 0)), Ty::TupleStruct(t) => d.deserialize_tuple_struct("TS", t.len(), TupV(t, 1)),
            Ty::Map(k, v) => d.deserialize_map(MapV(k, v)),
            Ty::Struct(b, t, deny) => d.deserialize_struct("ST", &FIELDS[*b..*b + t.len()], StV { base: *b, tys: t, deny: *deny, variant: false }).map(|v| Val::Struct(*b, v)),
            Ty::Enum(b, vs) => d.deserialize_enum("E", &VARIANTS[*b..*b + vs.len()], EnV(*b, vs)),
        }
    }
}
struct BytesV;
impl<'de> Visitor<'de> for BytesV { type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("bytes") }
    fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Val, E> { Ok(Val::Bytes(v)) }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Val, E> { Ok(Val::Bytes(v.to_vec())) } }
struct UnitV;
impl<'de> Visitor<'de> for UnitV { type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("unit struct US") }
    fn visit_unit<E>(self) -> Result<Val, E> { Ok(Val::UnitStruct) } }
struct OptV<'a>(&'a Ty);
impl<'a, 'de> Visitor<'de> for OptV<'a> { type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("option") }
    fn visit_unit<E>(self) -> Result<Val, E> { Ok(Val::None) }
    fn visit_none<E>(self) -> Result<Val, E> { Ok(Val::None) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> { Seed(self.0).deserialize(d).map(|v| Val::Some(Box::new(v))) } }
struct NewV<'a>(&'a Ty);
impl<'a, 'de> Visitor<'de> for NewV<'a> { type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("newtype struct NT") }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> { Seed(self.0).deserialize(d).map(|v| Val::Newtype(Box::new(v))) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match a.next_element_seed(Seed(self.0))? { Some(v) => Ok(Val::Newtype(Box::new(v))), None => Err(de::Error::invalid_length(0, &"newtype struct NT with 1 element")) } } }
struct SeqV<'a>(&'a Ty);
impl<'a, 'de> Visitor<'de> for SeqV<'a> { type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a sequence") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![]; while let Some(x) = a.next_element_seed(Seed(self.0))? { v.push(x); } Ok(Val::Seq(v, true)) } }
struct TupV<'a>(&'a [Ty], u8);
impl<'a, 'de> Visitor<'de> for TupV<'a> { type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "a tuple of size {}", self.0.len()) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![];
        for (i, t) in self.0.iter().enumerate() { match a.next_element_seed(Seed(t))? { Some(x) => v.push(x), None => return Err(de::Error::invalid_length(i, &self)) } }
        Ok(if self.1 == 0 { Val::Tuple(v) } else { Val::TupleStruct(v) }) } }
struct MapV<'a>(&'a Ty, &'a Ty);
impl<'a, 'de> Visitor<'de> for MapV<'a> { type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a map") }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![];
        while let Some(k) = a.next_key_seed(Seed(self.0))? { let x = a.next_value_seed(Seed(self.1))?; v.push((k, x)); }
        Ok(Val::Map(v, MapStyle::Entry)) } }
struct StV<'a> { base: usize, tys: &'a [Ty], deny: bool, variant: bool }
struct FieldV { base: usize, n: usize, deny: bool }
impl<'de> Visitor<'de> for FieldV { type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("field identifier") }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<usize, E> { Ok(if (v as usize) < self.n { v as usize } else { self.n }) }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<usize, E> {
        for i in 0..self.n { if FIELDS[self.base + i] == v { return Ok(i); } }
        if self.deny { Err(de::Error::unknown_field(v, &FIELDS[self.base..self.base + self.n])) } else { Ok(self.n) } }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<usize, E> { match std::str::from_utf8(v) { Ok(s) => self.visit_str(s), Err(_) => Ok(self.n) } } }
impl<'de> DeserializeSeed<'de> for FieldV { type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> { d.deserialize_identifier(self) } }
impl<'a, 'de> Visitor<'de> for StV<'a> { type Value = Vec<Val>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(if self.variant { "struct variant E::V" } else { "struct ST" }) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<Val>, A::Error> {
        let mut v = vec![];
        for (i, t) in self.tys.iter().enumerate() { match a.next_element_seed(Seed(t))? { Some(x) => v.push(x), None => return Err(de::Error::invalid_length(i, &self)) } }
        Ok(v) }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Vec<Val>, A::Error> {
        let n = self.tys.len();
        let mut v: Vec<Option<Val>> = vec![None; n];
        while let Some(i) = a.next_key_seed(FieldV { base: self.base, n, deny: self.deny })? {
            if i < n {
                if v[i].is_some() { return Err(de::Error::duplicate_field(FIELDS[self.base + i])); }
                v[i] = Some(a.next_value_seed(Seed(&self.tys[i]))?);
            } else { a.next_value::<de::IgnoredAny>()?; }
        }
        let mut out = vec![];
        for (i, x) in v.into_iter().enumerate() {
            match x { Some(x) => out.push(x), None => if let Ty::Opt(_) = self.tys[i] { out.push(Val::None) } else { return Err(de::Error::missing_field(FIELDS[self.base + i])) } }
        }
        Ok(out) } }
struct EnV<'a>(usize, &'a [VTy]);
struct VarV { base: usize, n: usize }
impl<'de> Visitor<'de> for VarV { type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("variant identifier") }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<usize, E> { if (v as usize) < self.n { Ok(v as usize) } else { Err(de::Error::invalid_value(de::Unexpected::Unsigned(v), &"variant index")) } }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<usize, E> {
        for i in 0..self.n { if VARIANTS[self.base + i] == v { return Ok(i); } }
        Err(de::Error::unknown_variant(v, &VARIANTS[self.base..self.base + self.n])) } }
impl<'de> DeserializeSeed<'de> for VarV { type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> { d.deserialize_identifier(self) } }
impl<'a, 'de> Visitor<'de> for EnV<'a> { type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("enum E") }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let (i, acc) = a.variant_seed(VarV { base: self.0, n: self.1.len() })?;
        let v = match &self.1[i] {
            VTy::Unit => { acc.unit_variant()?; VVal::Unit }
            VTy::Newtype(t) => VVal::Newtype(acc.newtype_variant_seed(Seed(t))?),
            VTy::Tuple(t) => match acc.tuple_variant(t.len(), TupV(t, 0))? { Val::Tuple(v) => VVal::Tuple(v), _ => unreachable!() },
            VTy::Struct(b, t) => VVal::Struct(*b, acc.struct_variant(&FIELDS[*b..*b + t.len()], StV { base: *b, tys: t, deny: false, variant: true })?),
        };
        Ok(Val::Enum(self.0, i, Box::new(v))) } }
// ------------------------------------------------------------------ generation
pub fn ty(r: &mut Rng, d: usize, any: bool) -> Ty {
    let leafs = [Ty::Bool, Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::I128, Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::U128, Ty::F32, Ty::F64, Ty::Char, Ty::Str, Ty::Str, Ty::Str, Ty::Unit, Ty::UnitStruct];
    if d == 0 || r.chance(1, 4) { return if any && r.chance(1, 4) { Ty::Any } else { r.pick(&leafs).clone() }; }
    let tys = |r: &mut Rng, lo: usize, hi: usize| -> Vec<Ty> { let n = r.range(lo, hi); (0..n).map(|_| ty(r, d - 1, any)).collect() };
    match r.below(11) {
        0 => Ty::Opt(Box::new(ty(r, d - 1, any))),
        1 => Ty::Newtype(Box::new(ty(r, d - 1, any))),
        2 | 3 => Ty::Seq(Box::new(ty(r, d - 1, any))),
        4 => Ty::Tuple(tys(r, 1, 3)),
        5 => Ty::TupleStruct(tys(r, 1, 3)),
        6 => Ty::Map(Box::new(if r.chance(2, 3) { Ty::Str } else { ty(r, d - 1, any) }), Box::new(ty(r, d - 1, any))),
        7 | 8 => { let t = tys(r, 0, 4); Ty::Struct(r.below(FIELDS.len() - t.len()), t, r.chance(1, 4)) }
        _ => {
            let n = r.range(1, 4);
            let vs = (0..n).map(|_| match r.below(4) { 0 => VTy::Unit, 1 => VTy::Newtype(ty(r, d - 1, any)), 2 => VTy::Tuple(tys(r, 2, 3)), _ => { let t = tys(r, 0, 3); VTy::Struct(r.below(FIELDS.len() - t.len()), t) } }).collect();
            Ty::Enum(r.below(VARIANTS.len() - n + 1), vs)
        }
    }
}
pub fn val(r: &mut Rng, t: &Ty) -> Val {
    let len = |r: &mut Rng| if r.chance(1, 3) { 1 } else { r.below(4) };
    match t {
        Ty::Bool => Val::Bool(r.chance(1, 2)), Ty::I8 => Val::I8(gen::i64v(r) as i8), Ty::I16 => Val::I16(gen::i64v(r) as i16), Ty::I32 => Val::I32(gen::i64v(r) as i32),
        Ty::I64 => Val::I64(gen::i64v(r)), Ty::I128 => Val::I128(gen::i128v(r)), Ty::U8 => Val::U8(gen::u64v(r) as u8), Ty::U16 => Val::U16(gen::u64v(r) as u16), Ty::U32 => Val::U32(gen::u64v(r) as u32),
        Ty::U64 => Val::U64(gen::u64v(r)), Ty::U128 => Val::U128(gen::u128v(r)), Ty::F32 => Val::F32(if r.chance(1, 3) { gen::float(r) as f32 } else { f32::from_bits(r.next() as u32) }), Ty::F64 => Val::F64(gen::float(r)),
        Ty::Char => Val::Char(if r.chance(1, 2) { *r.pick(&gen::chars_pool()) } else { gen::any_char(r) }), Ty::Str => Val::Str(gen::string(r)), Ty::Bytes => Val::Bytes(vec![1, 2]),
        Ty::Unit => Val::Unit, Ty::UnitStruct => Val::UnitStruct, Ty::Ignored => Val::Ignored, Ty::Any => Val::Any(gen::value(r, gen::Opts { depth: 2, ..gen::FULL })),
        Ty::Opt(t) => if r.chance(1, 3) { Val::None } else { Val::Some(Box::new(val(r, t))) },
        Ty::Newtype(t) => Val::Newtype(Box::new(val(r, t))),
        Ty::Seq(t) => { let n = if leafy(t) && r.chance(1, 40) { gen::biglen(r, 200) } else { len(r) }; Val::Seq((0..n).map(|_| val(r, t)).collect(), r.chance(1, 2)) }
        Ty::Tuple(t) => Val::Tuple(t.iter().map(|t| val(r, t)).collect()), Ty::TupleStruct(t) => Val::TupleStruct(t.iter().map(|t| val(r, t)).collect()),
        Ty::Map(k, v) => {
            let n = if leafy(k) && leafy(v) && r.chance(1, 40) { gen::biglen(r, 100) } else { len(r) }; let mut out: Vec<(Val, Val)> = vec![]; let mut seen: Vec<Value> = vec![];
            for _ in 0..n { let kk = val(r, k); if let Some(m) = model(&kk) { if seen.contains(&m) { continue; } seen.push(m); } else if !out.is_empty() { continue; } out.push((kk, val(r, v))); }
            Val::Map(out, *r.pick(&[MapStyle::Entry, MapStyle::KeyValue, MapStyle::Unsized])) }
        Ty::Struct(b, t, _) => Val::Struct(*b, t.iter().map(|t| val(r, t)).collect()),
        Ty::Enum(b, vs) => { let i = r.below(vs.len()); Val::Enum(*b, i, Box::new(match &vs[i] {
            VTy::Unit => VVal::Unit, VTy::Newtype(t) => VVal::Newtype(val(r, t)), VTy::Tuple(t) => VVal::Tuple(t.iter().map(|t| val(r, t)).collect()), VTy::Struct(b, t) => VVal::Struct(*b, t.iter().map(|t| val(r, t)).collect()) })) }
    }
}
fn leafy(t: &Ty) -> bool { !matches!(t, Ty::Any | Ty::Opt(_) | Ty::Newtype(_) | Ty::Seq(_) | Ty::Tuple(_) | Ty::TupleStruct(_) | Ty::Map(..) | Ty::Struct(..) | Ty::Enum(..)) }
