//! C14 C17 C19 C20
use crate::dynty::{self, any_val, model, nested_tag, MapStyle, Seed, Ty, VTy, VVal, Val, FIELDS, VARIANTS};
use crate::ensure;
use crate::fw::*;
use crate::gen::{self, same};
use crate::p_scalar::{read, read_ty};
use crate::p_value::{ambiguous, bad_text};
use serde::de::DeserializeSeed;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Value};
use std::cell::RefCell;
use std::io::{self, Read, Write};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C14", rule: "random values of random types through every serde call shape, alone and several per Serializer, re-read at the same type and as Values; refused leaves planted anywhere must surface as errors", fixed: 200, case: c14, quick: 60_000 },
        Prop { id: "C17", rule: "random values of random types: to_value against from_str of to_string and against the data model", fixed: 200, case: c17, quick: 80_000 },
        Prop { id: "C19", rule: "random enum-bearing types through singleton_map and singleton_map_recursive, text and Value, against the one-entry-map model; empty and multi-entry maps refused", fixed: 200, case: c19, quick: 60_000 },
        Prop { id: "C20", rule: "writers that fail after every possible number of bytes and split writes at random, readers that fail after any number of bytes", fixed: 40, case: c20, quick: 2_000 },
    ]
}
fn has_f32(v: &Val) -> bool { any_val(v, &|v| matches!(v, Val::F32(_))) }
/// equal up to the precision of an f32 in float positions
pub fn near(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) if x.is_f64() && y.is_f64() => { let (p, q) = (x.as_f64().unwrap() as f32, y.as_f64().unwrap() as f32); p.to_bits() == q.to_bits() || p.is_nan() && q.is_nan() }
        (Value::Sequence(x), Value::Sequence(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| near(p, q)),
        (Value::Mapping(x), Value::Mapping(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|((p, v), (q, w))| near(p, q) && near(v, w)),
        (Value::Tagged(x), Value::Tagged(y)) => x.tag == y.tag && near(&x.value, &y.value),
        _ => same(a, b),
    }
}
fn agree(a: &Value, b: &Value, f32s: bool) -> bool { same(a, b) || f32s && near(a, b) }
fn rnd(r: &mut Rng, i: u64) -> (Ty, Val) {
    let d = if i < 200 { 1 + (i % 3) as usize } else { r.range(1, 4) };
    let t = dynty::ty(r, d, true);
    let v = dynty::val(r, &t);
    (t, v)
}
/// put a value no text can carry at a random leaf
fn poison(v: &Val, r: &mut Rng) -> Val {
    let some = |v: &Vec<Val>, r: &mut Rng| { let mut v = v.clone(); if !v.is_empty() { let i = r.below(v.len()); v[i] = poison(&v[i].clone(), r); } else { v.push(Val::Bytes(vec![7])); } v };
    match v {
        Val::Some(v) => Val::Some(Box::new(poison(v, r))), Val::Newtype(v) => Val::Newtype(Box::new(poison(v, r))),
        Val::Seq(v, s) => Val::Seq(some(v, r), *s), Val::Tuple(v) => Val::Tuple(some(v, r)), Val::TupleStruct(v) => Val::TupleStruct(some(v, r)),
        Val::Struct(b, v) if !v.is_empty() => Val::Struct(*b, some(v, r)),
        Val::Map(v, s) if !v.is_empty() => { let mut v = v.clone(); let i = r.below(v.len()); if r.chance(1, 3) { v[i].0 = poison(&v[i].0.clone(), r); } else { v[i].1 = poison(&v[i].1.clone(), r); } Val::Map(v, *s) }
        Val::Enum(b, i, x) => match &**x {
            VVal::Newtype(v) => Val::Enum(*b, *i, Box::new(VVal::Newtype(poison(v, r)))),
            VVal::Tuple(v) => Val::Enum(*b, *i, Box::new(VVal::Tuple(some(v, r)))),
            VVal::Struct(f, v) if !v.is_empty() => Val::Enum(*b, *i, Box::new(VVal::Struct(*f, some(v, r)))),
            _ => Val::Bytes(vec![]) },
        _ => Val::Bytes(vec![1, 2]),
    }
}
/// deeply nested values: the whole structure is written, at any depth, as block text of the usual layout
fn c14_deep(cx: &mut Cx, r: &mut Rng) -> R {
    let d = match r.below(3) { 0 => *r.pick(&[126usize, 127, 128, 129, 130, 254, 255, 256, 257, 258, 511, 512, 513]), 1 => r.range(5, 125), _ => r.range(100, 300) };
    let kinds: Vec<bool> = { let k = r.below(3); (0..d).map(|_| match k { 0 => true, 1 => false, _ => r.chance(1, 2) }).collect() };
    let (mut v, mut lines, mut inner) = (Value::from(0), vec!["0".to_string()], 0);
    for (n, seq) in kinds.iter().enumerate() {
        let (n, mut out) = (n as u64 + 1, vec![]);
        if *seq {
            for (j, l) in lines.iter().enumerate() { out.push(format!("{}{}", if j == 0 { "- " } else { "  " }, l)); }
            out.push(format!("- {}", n)); v = Value::Sequence(vec![v, Value::from(n)]);
        } else {
            match inner { 0 => out.push(format!("k: {}", lines[0])), 1 => { out.push("k:".into()); out.extend(lines.iter().cloned()); } _ => { out.push("k:".into()); out.extend(lines.iter().map(|l| format!("  {}", l))); } }
            out.push(format!("z: {}", n)); let mut m = serde_yaml::Mapping::new(); m.insert("k".into(), v); m.insert("z".into(), n.into()); v = Value::Mapping(m);
        }
        lines = out; inner = if *seq { 1 } else { 2 };
    }
    let name = format!("a value nested {} deep, {} sequences", d, kinds.iter().filter(|x| **x).count()); cx.note(&name); cx.seen(&format!("{} {:?}", name, kinds), true);
    let mut ser = serde_yaml::Serializer::new(Vec::new());
    for x in [&v, &Value::from(1)] { if let Err(e) = x.serialize(&mut ser) { return fail(format!("serializing failed: {}", e), name); } }
    let text = match ser.into_inner().map(String::from_utf8) { Ok(Ok(t)) => t, e => return fail(format!("into_inner: {:?}", e), name) };
    let want = format!("{}\n--- 1\n", lines.join("\n")); let alt = format!("{}\n---\n1\n", lines.join("\n"));
    if text != want && text != alt {
        // another layout would do as long as it denotes the value; beyond the reader's depth only the number of lines is known
        let docs: Vec<_> = serde_yaml::Deserializer::from_str(&text).map(|d| Value::deserialize(d).map_err(|e| e.to_string())).collect();
        let whole = if d <= 126 { docs.first() == Some(&Ok(v.clone())) } else { (0..=d).all(|n| text.split(|c: char| !c.is_ascii_digit()).any(|w| w == n.to_string())) };
        ensure!(whole && docs.len() == 2, format!("{} -> {}", name, text.chars().take(400).collect::<String>()), "not the value written: {} documents", docs.len());
    }
    drop(v);
    Ok(())
}
/// very many small documents through one Serializer
fn c14_many(cx: &mut Cx, r: &mut Rng) -> R {
    let n = match r.below(2) { 0 => *r.pick(&[127usize, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 65_535, 65_536, 65_537]), _ => r.range(100, 1500) };
    let flush = r.below(3); let f = r.below(3);
    let name = format!("{} documents through one Serializer, form {} flush {}", n, f, flush); cx.note(&name); cx.seen(&name, true);
    let mut ser = serde_yaml::Serializer::new(Vec::new());
    for i in 0..n as u64 { let x = match f { 0 => i.serialize(&mut ser), 1 => [i].serialize(&mut ser), _ => Some((i, "x")).serialize(&mut ser) }; if let Err(e) = x { return fail(format!("serializing failed: {}", e), name); } if flush == 1 && i % 100 == 0 { let f = ser.flush(); ensure!(f.is_ok(), name, "flush failed: {:?}", f); } }
    let text = match ser.into_inner().map(String::from_utf8) { Ok(Ok(t)) => t, e => return fail(format!("into_inner: {:?}", e), name) };
    let mut k = 0u64;
    for d in serde_yaml::Deserializer::from_str(&text) { let x = match f { 0 => u64::deserialize(d), 1 => <[u64; 1]>::deserialize(d).map(|x| x[0]), _ => <(u64, String)>::deserialize(d).map(|x| x.0) }; ensure!(matches!(x, Ok(v) if v == k), name, "document {} reads as {:?}", k, x.map_err(|e| e.to_string())); k += 1; }
    ensure!(k == n as u64, name, "{} documents for {} values", k, n);
    Ok(())
}
fn c14(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    if i % 60 == 31 { return c14_deep(cx, r); }
    if i % 400 == 211 { return c14_many(cx, r); }
    let (t, v) = rnd(r, i);
    let inp = format!("{:?}", v); cx.note(&inp); cx.seen(&inp, true);
    let text = serde_yaml::to_string(&v);
    if nested_tag(&v, false) { ensure!(text.is_err(), inp, "a tag directly inside a tag was written as {:?}", text); }
    else if !bad_text(&v) {
        let text = match text { Ok(t) => t, Err(e) => return fail(format!("to_string failed: {}", e), inp) };
        if !ambiguous(&v, &t) { let b = read_ty(&text, &t); ensure!(b.as_ref() == Ok(&v), format!("{} -> {:?}", inp, text), "reads back as {:?}", b); }
        if let Some(m) = model(&v) { let b = read::<Value>(&text); ensure!(matches!(&b, Ok(x) if agree(x, &m, has_f32(&v))), format!("{} -> {:?}", inp, text), "as Value: {:?}, expected {:?}", b, m); }
        else { let b = read::<Value>(&text); ensure!(b.is_ok() || any_val(&v, &|v| matches!(v, Val::I128(_) | Val::U128(_) | Val::Map(..))), format!("{} -> {:?}", inp, text), "does not read back: {:?}", b); }
    }
    // a failing element is an error whatever surrounds it
    let p = poison(&v, r); let pt = serde_yaml::to_string(&p);
    ensure!(pt.is_err(), format!("{:?}", p), "a value that refuses to serialize gave {:?}", pt);
    // maps and sequences whose announced length is unknown, wrong or only a hint
    if r.chance(1, 3) {
        let v = hinted(r, 3);
        let inp = format!("{:?}", v); cx.note(&inp);
        let text = match serde_yaml::to_string(&v) { Ok(t) => t, Err(e) => return fail(format!("to_string failed: {}", e), inp) };
        let b = read::<Value>(&text); let m = v.value();
        ensure!(b.as_ref() == Ok(&m), format!("{} -> {:?}", inp, text), "as Value: {:?}, expected {:?}", b, m);
    }
    // several values through one Serializer
    if r.chance(1, 3) {
        let mut all: Vec<(Val, Ty, Value)> = vec![];
        let many = r.chance(1, 30); let docs = if many { gen::biglen(r, 80) } else { r.range(1, 4) };
        for _ in 0..docs { let t = dynty::ty(r, if many { 1 } else { 2 }, true); let v = dynty::val(r, &t); if !nested_tag(&v, false) && !bad_text(&v) { if let Some(m) = model(&v) { all.push((v, t, m)); } } }
        let inp = format!("stream of {:?}", all.iter().map(|x| &x.0).collect::<Vec<_>>()); cx.note(&inp);
        let mut ser = serde_yaml::Serializer::new(Vec::new());
        for (v, _, _) in &all { if let Err(e) = v.serialize(&mut ser) { return fail(format!("serializing failed: {}", e), inp); } if r.chance(1, 4) { let f = ser.flush(); ensure!(f.is_ok(), inp, "flush failed: {:?}", f); } }
        let out = match ser.into_inner() { Ok(o) => o, Err(e) => return fail(format!("into_inner failed: {}", e), inp) };
        let text = match String::from_utf8(out) { Ok(t) => t, Err(_) => return fail("text is not UTF-8", inp) };
        if !all.is_empty() {
            let docs: Vec<_> = serde_yaml::Deserializer::from_str(&text).map(|d| Value::deserialize(d).map_err(|e| e.to_string())).collect();
            ensure!(docs.len() == all.len(), format!("{} -> {:?}", inp, text), "{} documents for {} values", docs.len(), all.len());
            for (d, (v, _, m)) in docs.iter().zip(&all) { ensure!(matches!(d, Ok(x) if agree(x, m, has_f32(v))), format!("{} -> {:?}", inp, text), "a document reads as {:?}, expected {:?}", d, m); }
            for (d, (v, t, _)) in serde_yaml::Deserializer::from_str(&text).zip(&all) { if !ambiguous(v, t) { let b = Seed(t).deserialize(d).map_err(|e| e.to_string()); ensure!(b.as_ref() == Ok(v), format!("{} -> {:?}", inp, text), "a document reads back as {:?}, expected {:?}", b, v); } }
        } else { ensure!(text.is_empty(), inp, "no values gave {:?}", text); }
    }
    Ok(())
}

#[derive(Debug, Clone)]
enum Hinted { Int(i64), Text(String), Seq(Option<usize>, Vec<Hinted>), Map(Option<usize>, bool, Vec<(Hinted, Hinted)>), Var(Box<Hinted>) }
impl Hinted {
    fn value(&self) -> Value { match self { Hinted::Int(n) => Value::from(*n), Hinted::Text(t) => Value::from(t.as_str()), Hinted::Seq(_, v) => Value::Sequence(v.iter().map(|x| x.value()).collect()), Hinted::Map(_, _, m) => Value::Mapping(m.iter().map(|(k, v)| (k.value(), v.value())).collect()), Hinted::Var(x) => Value::Tagged(Box::new(serde_yaml::value::TaggedValue { tag: serde_yaml::value::Tag::new("Var"), value: x.value() })) } }
}
impl Serialize for Hinted {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeMap, SerializeSeq};
        match self {
            Hinted::Int(n) => s.serialize_i64(*n), Hinted::Text(t) => s.serialize_str(t),
            Hinted::Var(x) => s.serialize_newtype_variant("E", 0, "Var", &**x),
            Hinted::Seq(l, v) => { let mut q = s.serialize_seq(*l)?; for x in v { q.serialize_element(x)?; } q.end() }
            Hinted::Map(l, apart, m) => { let mut q = s.serialize_map(*l)?; for (k, v) in m { if *apart { q.serialize_key(k)?; q.serialize_value(v)?; } else { q.serialize_entry(k, v)?; } } q.end() }
        }
    }
}
fn hinted(r: &mut Rng, depth: usize) -> Hinted {
    let hint = |r: &mut Rng| if r.chance(1, 4) { None } else { Some(r.below(3)) };
    match r.below(if depth == 0 { 2 } else { 5 }) {
        4 => { let mut x = hinted(r, depth - 1); while let Hinted::Var(y) = x { x = *y; } Hinted::Var(Box::new(x)) }
        0 => Hinted::Int(r.below(1000) as i64 - 500),
        1 => Hinted::Text(format!("t{}", r.below(1000))),
        2 => { let h = hint(r); Hinted::Seq(h, (0..r.below(3)).map(|_| hinted(r, depth - 1)).collect()) }
        _ => {
            let h = hint(r); let n = r.below(4);
            Hinted::Map(h, r.chance(1, 3), (0..n).map(|i| { let d = if r.chance(1, 3) { depth - 1 } else { 0 }; let k = hinted(r, d); (if i == 0 { k } else { Hinted::Text(format!("k{}", i)) }, hinted(r, depth - 1)) }).collect())
        }
    }
}

fn c17(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    let (_, v) = rnd(r, i);
    let inp = format!("{:?}", v); cx.note(&inp);
    let wide = any_val(&v, &wide);
    cx.seen(&inp, !wide);
    let tv = serde_yaml::to_value(&v);
    if wide { return Ok(()); }
    if let Some(m) = model(&v) { ensure!(matches!(&tv, Ok(x) if same(x, &m)), inp, "to_value gives {:?}, expected {:?}", tv, m); }
    if let (Ok(tv), Ok(text)) = (&tv, serde_yaml::to_string(&v)) {
        if !bad_text(&v) && model(&v).is_some() {
            let b = read::<Value>(&text);
            ensure!(matches!(&b, Ok(x) if agree(x, tv, has_f32(&v))), format!("{} -> {:?}", inp, text), "to_value gives {:?}, the text denotes {:?}", tv, b);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C19
thread_local! { static DYN: RefCell<Ty> = const { RefCell::new(Ty::Unit) }; }
struct Dyn(Val);
impl<'de> Deserialize<'de> for Dyn { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Dyn, D::Error> { let t = DYN.with(|t| t.borrow().clone()); Seed(&t).deserialize(d).map(Dyn) } }
impl Serialize for Dyn { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) } }
struct One(Val); struct Rec(Val);
impl Serialize for One { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { serde_yaml::with::singleton_map::serialize(&self.0, s) } }
impl Serialize for Rec { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { serde_yaml::with::singleton_map_recursive::serialize(&self.0, s) } }
impl<'de> Deserialize<'de> for One { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<One, D::Error> { serde_yaml::with::singleton_map::deserialize::<Dyn, D>(d).map(|d| One(d.0)) } }
impl<'de> Deserialize<'de> for Rec { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Rec, D::Error> { serde_yaml::with::singleton_map_recursive::deserialize::<Dyn, D>(d).map(|d| Rec(d.0)) } }

/// the data a singleton_map serialization denotes
fn single(v: &Val, rec: bool) -> Option<Value> {
    let sub = |x: &Val| if rec { single(x, true) } else { model(x) };
    let entry = |k: &str, v: Value| { let mut m = Mapping::new(); m.insert(k.into(), v); Some(Value::Mapping(m)) };
    let seq = |v: &Vec<Val>| v.iter().map(sub).collect::<Option<Vec<_>>>().map(Value::Sequence);
    let st = |b: usize, v: &Vec<Val>| { let mut m = Mapping::new(); for (i, x) in v.iter().enumerate() { m.insert(FIELDS[b + i].into(), sub(x)?); } Some(Value::Mapping(m)) };
    match v {
        Val::Enum(b, i, x) => { let name = VARIANTS[b + i]; match &**x { VVal::Unit => Some(name.into()), VVal::Newtype(x) => entry(name, sub(x)?), VVal::Tuple(v) => entry(name, seq(v)?), VVal::Struct(f, v) => entry(name, st(*f, v)?) } }
        Val::Some(x) => single(x, rec),
        Val::Newtype(x) => if rec { single(x, true) } else { model(v) },
        Val::Seq(v, _) | Val::Tuple(v) | Val::TupleStruct(v) if rec => seq(v),
        Val::Struct(b, v) if rec => st(*b, v),
        Val::Map(v, _) if rec => { let mut m = Mapping::new(); for (k, x) in v { if m.insert(sub(k)?, sub(x)?).is_some() { return None; } } Some(Value::Mapping(m)) }
        Val::Any(x) if rec => Some(x.clone()),
        _ => model(v),
    }
}
fn c19(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    let d = 1 + (i % 3) as usize;
    let any = r.chance(1, 3);
    let en = |r: &mut Rng| { let vs = vec![VTy::Unit, VTy::Newtype(dynty::ty(r, d, any)), VTy::Tuple(vec![dynty::ty(r, d, any), dynty::ty(r, 0, any)]), VTy::Struct(r.below(8), vec![dynty::ty(r, d, any), dynty::ty(r, 1, any)])]; Ty::Enum(r.below(4), vs) };
    let e = en(r);
    let t = match r.below(8) { 0..=3 => e, 4 => Ty::Opt(Box::new(e)), 5 => Ty::Seq(Box::new(e)), 6 => { let e2 = en(r); Ty::Struct(0, vec![e, Ty::Opt(Box::new(e2)), Ty::Map(Box::new(Ty::Str), Box::new(en(r)))], false) } _ => dynty::ty(r, 3, any) };
    let v = dynty::val(r, &t);
    DYN.with(|x| *x.borrow_mut() = t.clone());
    let inp = format!("{:?}", v); cx.note(&inp); cx.seen(&inp, true);
    for rec in [false, true] {
        let kind = if rec { "singleton_map_recursive" } else { "singleton_map" };
        let want = match single(&v, rec) { Some(w) => w, None => {
            // no Value denotes it (wide integers): the text still has to
            if any_val(&v, &|v| matches!(v, Val::Any(x) if crate::p_value::bad_tag(x) || dynty::nested_tag_v(x, true)) || wide_in_variant(v)) || nested_tag(&v, false) || bad_text(&v) || ambiguous(&v, &t) { continue; }
            if let Ok(text) = if rec { serde_yaml::to_string(&Rec(v.clone())) } else { serde_yaml::to_string(&One(v.clone())) } {
                let b = if rec { read::<Rec>(&text).map(|x| x.0) } else { read::<One>(&text).map(|x| x.0) };
                ensure!(b.as_ref() == Ok(&v), format!("{} -> {:?}", inp, text), "{}: reads back as {:?}", kind, b);
            }
            continue;
        } };
        let f32s = has_f32(&v);
        let tv = if rec { serde_yaml::to_value(Rec(v.clone())) } else { serde_yaml::to_value(One(v.clone())) };
        ensure!(matches!(&tv, Ok(x) if same(x, &want)), inp, "{}: to_value gives {:?}, expected {:?}", kind, tv, want);
        if !crate::p_value::bad_tag(&want) && !dynty::nested_tag_v(&want, false) {
            let text = if rec { serde_yaml::to_string(&Rec(v.clone())) } else { serde_yaml::to_string(&One(v.clone())) };
            let text = match text { Ok(t) => t, Err(e) => return fail(format!("{}: to_string failed: {}", kind, e), inp) };
            let b = read::<Value>(&text);
            ensure!(matches!(&b, Ok(x) if agree(x, &want, f32s)), format!("{} -> {:?}", inp, text), "{}: as Value: {:?}, expected {:?}", kind, b, want);
            if !ambiguous(&v, &t) {
                let b = if rec { read::<Rec>(&text).map(|x| x.0) } else { read::<One>(&text).map(|x| x.0) };
                ensure!(b.as_ref() == Ok(&v), format!("{} -> {:?}", inp, text), "{}: reads back as {:?}", kind, b);
                let rd = chunked(text.as_bytes(), r);
                let b = if rec { serde_yaml::from_reader::<_, Rec>(rd).map(|x| x.0) } else { serde_yaml::from_reader::<_, One>(rd).map(|x| x.0) }.map_err(|e| e.to_string());
                ensure!(b.as_ref() == Ok(&v), format!("{} -> {:?}", inp, text), "{}: reads back through a reader as {:?}", kind, b);
                if !f32s {
                    let text = crate::yamlgen::W::doc(&crate::yamlgen::of_value(&want, r));
                    let b = if rec { read::<Rec>(&text).map(|x| x.0) } else { read::<One>(&text).map(|x| x.0) };
                    ensure!(b.as_ref() == Ok(&v), format!("{} -> {:?}", inp, text), "{}: in another spelling reads as {:?}", kind, b);
                }
            }
        }
        if !ambiguous(&v, &t) && !f32s {
            let b = if rec { serde_yaml::from_value::<Rec>(want.clone()).map(|x| x.0) } else { serde_yaml::from_value::<One>(want.clone()).map(|x| x.0) }.map_err(|e| e.to_string());
            ensure!(b.as_ref() == Ok(&v), format!("{:?}", want), "{}: from_value gives {:?}, expected {:?}", kind, b, v);
            let b = if rec { Rec::deserialize(&want).map(|x| x.0) } else { One::deserialize(&want).map(|x| x.0) }.map_err(|e| e.to_string());
            ensure!(b.as_ref() == Ok(&v), format!("{:?}", want), "{}: from &Value gives {:?}, expected {:?}", kind, b, v);
        }
        // maps with zero or several entries
        if let (Ty::Enum(..), Val::Enum(_, _, x)) = (&t, &v) {
            let mut bads = vec![Value::Mapping(Mapping::new())];
            if let Value::Mapping(m) = &want { if !matches!(&**x, VVal::Unit) {
                for k in ["zz", VARIANTS[0], VARIANTS[3], "a"] { let mut m2 = m.clone(); m2.insert(k.into(), 1.into()); if m2.len() > 1 { bads.push(Value::Mapping(m2)); } }
                let mut m3 = Mapping::new(); m3.insert("zz".into(), Value::Null); m3.extend(m.clone()); bads.push(Value::Mapping(m3));
            } }
            for b in bads {
                let g = if rec { serde_yaml::from_value::<Rec>(b.clone()).is_ok() } else { serde_yaml::from_value::<One>(b.clone()).is_ok() };
                ensure!(!g, format!("{:?}", b), "{}: a map of {} entries was accepted as {:?}", kind, b.as_mapping().unwrap().len(), t);
                if let Ok(text) = serde_yaml::to_string(&b) { let g = if rec { read::<Rec>(&text).is_ok() } else { read::<One>(&text).is_ok() }; ensure!(!g, text, "{}: a map of {} entries was accepted as {:?}", kind, b.as_mapping().unwrap().len(), t); }
            }
        }
    }
    Ok(())
}
fn wide(v: &Val) -> bool { matches!(v, Val::I128(n) if i64::try_from(*n).is_err() && u64::try_from(*n).is_err()) || matches!(v, Val::U128(n) if u64::try_from(*n).is_err()) }
/// KNOWN-FINDING C19: a wide integer in a tuple or struct variant goes through a Value and comes out a string
fn wide_in_variant(v: &Val) -> bool { matches!(v, Val::Enum(_, _, x) if matches!(&**x, VVal::Tuple(xs) | VVal::Struct(_, xs) if xs.iter().any(|x| any_val(x, &wide)))) }

// ------------------------------------------------------------------ C20
const KINDS: &[io::ErrorKind] = &[io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::BrokenPipe, io::ErrorKind::InvalidData, io::ErrorKind::InvalidInput, io::ErrorKind::WriteZero, io::ErrorKind::PermissionDenied, io::ErrorKind::NotFound, io::ErrorKind::ConnectionReset, io::ErrorKind::ConnectionAborted, io::ErrorKind::NotConnected, io::ErrorKind::AlreadyExists, io::ErrorKind::OutOfMemory, io::ErrorKind::Unsupported, io::ErrorKind::StorageFull];
struct Flaky { kind: io::ErrorKind, out: std::rc::Rc<RefCell<Vec<u8>>>, limit: Option<usize>, split: u64, zero: bool, flushed: std::rc::Rc<RefCell<(usize, usize)>> }
impl Write for Flaky {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut o = self.out.borrow_mut();
        let mut n = b.len();
        if self.split > 0 { self.split = self.split.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1; let k = (self.split >> 40) as usize; if k % 7 == 0 { return Err(io::Error::new(io::ErrorKind::Interrupted, "again")); } n = n.min(1 + k % 9); }
        if let Some(l) = self.limit { if o.len() >= l && !b.is_empty() { return if self.zero { Ok(0) } else { Err(io::Error::new(self.kind, "boom 4711")) }; } n = n.min(l - o.len()); }
        o.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { let n = self.out.borrow().len(); let mut f = self.flushed.borrow_mut(); f.0 += 1; f.1 = n; Ok(()) }
}
struct FlakyR<'a> { kind: io::ErrorKind, scale: usize, data: &'a [u8], pos: usize, limit: Option<usize>, chunk: u64 }
impl<'a> Read for FlakyR<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.chunk = self.chunk.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
        let k = (self.chunk >> 40) as usize;
        if k % 5 == 0 { return Err(io::Error::new(io::ErrorKind::Interrupted, "again")); }
        let end = self.limit.unwrap_or(self.data.len()).min(self.data.len());
        if self.limit.is_some() && self.pos >= end { return Err(io::Error::new(self.kind, "boom 4712")); }
        let n = (1 + k % self.scale).min(end - self.pos).min(b.len());
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]); self.pos += n;
        Ok(n)
    }
}
pub fn chunked<'a>(data: &'a [u8], r: &mut Rng) -> impl Read + 'a { FlakyR { kind: io::ErrorKind::Other, scale: if data.len() > 3000 { *r.pick(&[13, 700, 5000, 40_000]) } else { 13 }, data, pos: 0, limit: None, chunk: r.next() | 1 } }
fn c20(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    let big = i % 8 == 0;
    let (_, mut v) = rnd(r, i);
    if nested_tag(&v, false) || bad_text(&v) { v = Val::Str("plain".into()); }
    if big { let n = r.range(20, 120); let s = "x".repeat(r.range(100, 600)); v = Val::Tuple(vec![v, Val::Seq((0..n).map(|k| Val::Str(format!("{}{}", s, k))).collect(), true)]); }
    let text = match serde_yaml::to_string(&v) { Ok(t) => t, Err(e) => return fail(format!("to_string failed: {}", e), format!("{:?}", v)) };
    let inp = format!("{:?}", v).chars().take(3000).collect::<String>(); cx.note(&inp);
    let limits: Vec<Option<usize>> = if big { [None, Some(0), Some(text.len() - 1), Some(text.len()), Some(16383), Some(16384), Some(16385), Some(32768)].into_iter().chain((0..6).map(|_| Some(r.below(text.len() + 10)))).collect() }
        else { std::iter::once(None).chain((0..=text.len().min(40)).map(Some)).chain((0..6).map(|_| Some(r.below(text.len() + 2)))).chain([Some(text.len() - 1), Some(text.len())]).collect() };
    for limit in limits {
        let split = if r.chance(1, 2) { r.next() | 1 } else { 0 };
        let zero = r.chance(1, 5); let kind = *r.pick(KINDS);
        let mk = || { let out = std::rc::Rc::new(RefCell::new(vec![])); let fl = std::rc::Rc::new(RefCell::new((0, 0))); (Flaky { kind, out: out.clone(), limit, split, zero, flushed: fl.clone() }, out, fl) };
        let works = limit.map_or(true, |l| l >= text.len());
        let what = format!("limit {:?} split {} zero {} {}", limit, split, zero, inp);
        cx.seen(&what, !works);
        let (w, out, _) = mk();
        let res = serde_yaml::to_writer(w, &v);
        let got = out.borrow().clone();
        if works { ensure!(res.is_ok(), what, "to_writer failed: {:?}", res); ensure!(got == text.as_bytes(), what, "the writer received {:?}, expected {:?}", String::from_utf8_lossy(&got), text); }
        else {
            ensure!(res.is_err(), what, "the writer failed but to_writer reports success");
            let m = res.unwrap_err(); let s = m.to_string();
            ensure!(s.contains(if zero { "write" } else { "boom 4711" }), what, "the writer's error is reported as {:?}", s);
            ensure!(text.as_bytes().starts_with(&got), what, "the writer accepted {:?}, not a prefix of {:?}", String::from_utf8_lossy(&got), text);
        }
        // two values through a Serializer, flushing in between
        let (w, out, fl) = mk();
        let mut ser = serde_yaml::Serializer::new(w);
        let first = v.serialize(&mut ser);
        if works {
            ensure!(first.is_ok(), what, "serialize failed: {:?}", first);
            let f = ser.flush(); ensure!(f.is_ok(), what, "flush failed: {:?}", f);
            ensure!(out.borrow().as_slice() == text.as_bytes(), what, "after flush the writer has {:?}", String::from_utf8_lossy(&out.borrow()));
            ensure!(fl.borrow().0 > 0 && fl.borrow().1 == text.len(), what, "Serializer::flush did not flush the writer");
        } else { ensure!(first.is_err(), what, "the writer failed but serialize reports success"); }
        if limit.is_none() {
            let second = Val::Str("end".into()).serialize(&mut ser); ensure!(second.is_ok(), what, "second serialize failed: {:?}", second);
            let w = ser.into_inner(); ensure!(w.is_ok(), what, "into_inner failed"); drop(w);
            let got = String::from_utf8_lossy(&out.borrow()).to_string();
            ensure!(got.starts_with(&text) && got[text.len()..].trim_start_matches("...\n") == "--- end\n", what, "the stream is {:?}, expected {:?} then a second document", got, text);
        }
    }
    // the cause of the client's error is kept
    {
        #[derive(Debug)] struct Outer(Inner);
        #[derive(Debug)] struct Inner;
        impl std::fmt::Display for Outer { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("outer 4713") } }
        impl std::fmt::Display for Inner { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("inner 4714") } }
        impl std::error::Error for Inner {}
        impl std::error::Error for Outer { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { Some(&self.0) } }
        struct W; impl Write for W { fn write(&mut self, _: &[u8]) -> io::Result<usize> { Err(io::Error::new(io::ErrorKind::Other, Outer(Inner))) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
        impl Read for W { fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { Err(io::Error::new(io::ErrorKind::Other, Outer(Inner))) } }
        for e in [serde_yaml::to_writer(W, &v).err(), serde_yaml::from_reader::<_, Value>(W).err()] {
            let e = match e { Some(e) => e, None => return fail("a failing writer or reader goes unnoticed", inp) };
            let src = std::error::Error::source(&e).map(|s| s.to_string());
            ensure!(e.to_string().contains("outer 4713") && src.as_deref() == Some("inner 4714"), inp, "an I/O error is reported as {:?} with source {:?}", e.to_string(), src);
        }
    }
    // a writer whose flush fails
    {
        struct W; impl Write for W { fn write(&mut self, b: &[u8]) -> io::Result<usize> { Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { Err(io::Error::new(io::ErrorKind::Other, "boom 4715")) } }
        let mut ser = serde_yaml::Serializer::new(W);
        if v.serialize(&mut ser).is_ok() { let f = ser.flush().map_err(|e| e.to_string()); ensure!(matches!(&f, Err(e) if e.contains("boom 4715")), inp, "flushing the writer fails, Serializer::flush reports {:?}", f); }
    }
    // readers
    for _ in 0..6 {
        let limit = if r.chance(1, 4) { None } else { Some(r.below(text.len() + 1)) };
        let f = FlakyR { kind: *r.pick(KINDS), scale: if text.len() > 3000 { *r.pick(&[13, 700, 5000, 40_000]) } else { 13 }, data: text.as_bytes(), pos: 0, limit, chunk: r.next() | 1 };
        let res = serde_yaml::from_reader::<_, Value>(f).map_err(|e| e.to_string());
        let what = format!("reader limit {:?} on {:?}", limit, text.chars().take(2000).collect::<String>());
        match limit {
            None => { let w = read::<Value>(&text); ensure!(match (&res, &w) { (Ok(a), Ok(b)) => same(a, b), (Err(a), Err(b)) => a == b, _ => false }, what, "from_reader gives {:?}, from_str gives {:?}", res, w); }
            Some(_) => ensure!(matches!(&res, Err(e) if e.contains("boom 4712")), what, "the reader failed but from_reader gives {:?}", res),
        }
        if limit.is_some() {
            let f = FlakyR { kind: *r.pick(KINDS), scale: if text.len() > 3000 { *r.pick(&[13, 700, 5000, 40_000]) } else { 13 }, data: text.as_bytes(), pos: 0, limit, chunk: r.next() | 1 };
            let first = serde_yaml::Deserializer::from_reader(f).next().map(|d| Value::deserialize(d).map_err(|e| e.to_string()));
            ensure!(matches!(&first, Some(Err(e)) if e.contains("boom 4712")), what, "iterating over a failing reader gives {:?}", first);
        }
    }
    let _ = (MapStyle::Entry, Tag::new("t"), gen::FULL); let _: Option<TaggedValue> = None;
    Ok(())
}
