//! An independent YAML writer: a tree of nodes with chosen styles, its text and its meaning.
use crate::dynty::{MapStyle, VVal, Val, Ty, VTy, FIELDS, VARIANTS};
use crate::fw::Rng;
use crate::gen;
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Value};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style { Plain, Single, Double, Literal, Folded }
#[derive(Clone, Debug)]
pub enum Kind { Scalar(String, Style), Seq(Vec<Node>), Map(Vec<(Node, Node)>), Alias(String) }
#[derive(Clone, Debug)]
pub struct Node { pub tag: Option<String>, pub anchor: Option<String>, pub kind: Kind, pub flow: bool }

pub fn plain(s: &str) -> Node { Node { tag: None, anchor: None, kind: Kind::Scalar(s.to_owned(), Style::Plain), flow: false } }
pub fn seq(v: Vec<Node>) -> Node { Node { tag: None, anchor: None, kind: Kind::Seq(v), flow: false } }
pub fn map(v: Vec<(Node, Node)>) -> Node { Node { tag: None, anchor: None, kind: Kind::Map(v), flow: false } }
pub fn alias(s: &str) -> Node { Node { tag: None, anchor: None, kind: Kind::Alias(s.to_owned()), flow: false } }
impl Node {
    pub fn tagged(mut self, t: &str) -> Node { self.tag = Some(t.to_owned()); self }
    pub fn anchored(mut self, t: &str) -> Node { self.anchor = Some(t.to_owned()); self }
    pub fn flow(mut self) -> Node { self.flow = true; self }
}

/// can this text be written as a plain scalar anywhere (also as a key, also in flow context)?
pub fn plain_ok(s: &str) -> bool {
    if s.is_empty() { return false; }
    let c: Vec<char> = s.chars().collect();
    if c.iter().any(|c| !(' '..='~').contains(c) && !('\u{a1}'..='\u{d7ff}').contains(c) || "[]{},".contains(*c) || matches!(*c, '\u{2028}' | '\u{2029}')) { return false; }
    if c[0] == ' ' || c[c.len() - 1] == ' ' || c[c.len() - 1] == ':' { return false; }
    if "#&*!|>'\"%@`=".contains(c[0]) && c[0] != '=' { return false; }
    if "-?:".contains(c[0]) && (c.len() == 1 || c[1] == ' ' || c[0] != '-') { return false; }
    if s.starts_with("---") || s.starts_with("...") { return false; }
    !s.contains(": ") && !s.contains(":?") && !s.contains(" #") && !s.contains("  ") && s.len() < 200
}
pub fn quote_single_ok(s: &str) -> bool { s.chars().all(|c| (' '..='~').contains(&c) || ('\u{a1}'..='\u{d7ff}').contains(&c) && !matches!(c, '\u{2028}' | '\u{2029}')) }
pub fn literal_ok(s: &str) -> bool { s.split('\n').all(|l| quote_single_ok(l)) && !s.is_empty() && s.split('\n').any(|l| !l.trim().is_empty()) }

pub struct W { pub out: String, pub spans: Vec<(usize, *const Node)> }
impl W {
    pub fn doc(n: &Node) -> String { let mut w = W { out: String::from("---"), spans: vec![] }; w.node(n, 0, false); w.out.push('\n'); w.out }
    pub fn stream(ns: &[Node]) -> String { ns.iter().map(W::doc).collect() }
    fn props(&mut self, n: &Node) {
        if let Some(a) = &n.anchor { self.out.push_str(&format!("&{} ", a)); }
        if let Some(t) = &n.tag { self.out.push_str(t); self.out.push(' '); }
    }
    fn span(&mut self, n: &Node) { self.spans.push((self.out.len(), n)); }
    /// cursor is right after an indicator; write separation and the node
    pub fn node(&mut self, n: &Node, ind: usize, inflow: bool) {
        match &n.kind {
            Kind::Seq(v) if !n.flow && !inflow && !v.is_empty() => {
                if n.anchor.is_some() || n.tag.is_some() { self.out.push(' '); self.props(n); }
                for (i, x) in v.iter().enumerate() {
                    self.out.push('\n'); self.out.push_str(&" ".repeat(ind)); if i == 0 { self.span(n); }
                    self.out.push('-'); self.node(x, ind + 2, false);
                }
            }
            Kind::Map(v) if !n.flow && !inflow && !v.is_empty() => {
                if n.anchor.is_some() || n.tag.is_some() { self.out.push(' '); self.props(n); }
                for (i, (k, x)) in v.iter().enumerate() {
                    self.out.push('\n'); self.out.push_str(&" ".repeat(ind)); if i == 0 { self.span(n); }
                    if self.simple(k) { self.flow(k, true); self.out.push_str(if let Kind::Alias(_) = k.kind { " :" } else { ":" }); self.node(x, ind + 2, false); }
                    else { self.out.push('?'); self.node(k, ind + 2, false); self.out.push('\n'); self.out.push_str(&" ".repeat(ind)); self.out.push(':'); self.node(x, ind + 2, false); }
                }
            }
            Kind::Scalar(s, Style::Literal) | Kind::Scalar(s, Style::Folded) if !inflow && literal_ok(s) && (matches!(n.kind, Kind::Scalar(_, Style::Literal)) || !s.contains('\n') && !s.starts_with(' ')) => {
                self.out.push(' '); self.span(n); self.props(n);
                self.out.push(if let Kind::Scalar(_, Style::Literal) = n.kind { '|' } else { '>' });
                let body = s.trim_end_matches('\n'); let nl = s.len() - body.len();
                let first = body.split('\n').next().unwrap_or("");
                let i = ind.max(1);
                if first.starts_with(' ') || first.is_empty() || body.is_empty() { self.out.push_str(&format!("{}", i - if ind == 0 { 0 } else { ind - i + 0 }.min(0))); }
                self.out.push_str(match nl { 0 => "-", 1 => "", _ => "+" });
                for l in body.split('\n') { self.out.push('\n'); if !l.is_empty() { self.out.push_str(&" ".repeat(i)); self.out.push_str(l); } }
                for _ in 1..nl { self.out.push('\n'); }
            }
            Kind::Scalar(s, Style::Plain) if s.is_empty() && n.tag.is_none() && n.anchor.is_none() && !inflow => { self.span(n); }
            _ => { self.out.push(' '); self.flow(n, false); }
        }
    }
    fn simple(&self, n: &Node) -> bool {
        match &n.kind { Kind::Scalar(s, st) => !(matches!(st, Style::Literal | Style::Folded)) && s.len() < 150 && !(s.is_empty() && *st == Style::Plain), Kind::Alias(_) => true, Kind::Seq(v) => v.is_empty(), Kind::Map(v) => v.is_empty() }
    }
    pub fn flow(&mut self, n: &Node, key: bool) {
        self.span(n);
        self.props(n);
        match &n.kind {
            Kind::Alias(a) => { self.out.push('*'); self.out.push_str(a); }
            Kind::Scalar(s, st) => match st {
                Style::Plain => self.out.push_str(s),
                Style::Single if quote_single_ok(s) => { self.out.push('\''); self.out.push_str(&s.replace('\'', "''")); self.out.push('\''); }
                _ => { self.out.push('"'); for c in s.chars() { match c {
                    '"' => self.out.push_str("\\\""), '\\' => self.out.push_str("\\\\"), '\n' => self.out.push_str("\\n"), ' '..='~' => self.out.push(c),
                    c if (c as u32) < 0x100 => self.out.push_str(&format!("\\x{:02x}", c as u32)), c if (c as u32) < 0x10000 => self.out.push_str(&format!("\\u{:04x}", c as u32)), c => self.out.push_str(&format!("\\U{:08x}", c as u32)) } } self.out.push('"'); }
            },
            Kind::Seq(v) => { self.out.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { self.out.push_str(", "); } self.flow(x, false); } self.out.push(']'); }
            Kind::Map(v) => { self.out.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { self.out.push_str(", "); }
                if self.simple(k) { self.flow(k, true); } else { self.out.push_str("? "); self.flow(k, true); }
                self.out.push_str(" : "); self.flow(x, false); } self.out.push('}'); }
        }
        let _ = key;
    }
}

// ------------------------------------------------------------------ meaning
#[derive(Clone, Debug, PartialEq)]
pub enum Class { Null, Bool(bool), Int(bool, u128), Float(f64), Str }
/// the plain scalar grammar, written from the property statement
pub fn classify(s: &str) -> Class {
    if matches!(s, "" | "~" | "null" | "Null" | "NULL") { return Class::Null; }
    if matches!(s, "true" | "True" | "TRUE") { return Class::Bool(true); }
    if matches!(s, "false" | "False" | "FALSE") { return Class::Bool(false); }
    let (neg, signed, body) = match s.as_bytes()[0] { b'-' => (true, true, &s[1..]), b'+' => (false, true, &s[1..]), _ => (false, false, s) };
    let digits = |b: &str, radix: u32| -> Option<Option<u128>> {
        if b.is_empty() || !b.chars().all(|c| c.is_digit(radix)) { return None; }
        let mut v: u128 = 0;
        for c in b.chars() { v = match v.checked_mul(radix as u128).and_then(|v| v.checked_add(c.to_digit(radix).unwrap() as u128)) { Some(v) => v, None => return Some(None) }; }
        Some(Some(v))
    };
    let fits = |v: u128| if neg { v <= 1 << 127 } else { true };
    let mut toobig = false;
    for (p, radix) in [("0x", 16), ("0o", 8), ("0b", 2)] {
        if let Some(d) = body.strip_prefix(p) { match digits(d, radix) { Some(Some(v)) if fits(v) => return Class::Int(neg && v != 0, v), Some(_) => toobig = true, None => {} } }
    }
    if let Some(v) = digits(body, 10) {
        if body.len() > 1 && body.starts_with('0') { return Class::Str; }
        if let Some(v) = v { if fits(v) { return Class::Int(neg && v != 0, v); } }
    }
    let _ = toobig;
    match s { ".inf" | ".Inf" | ".INF" | "+.inf" | "+.Inf" | "+.INF" => return Class::Float(f64::INFINITY), "-.inf" | "-.Inf" | "-.INF" => return Class::Float(f64::NEG_INFINITY), ".nan" | ".NaN" | ".NAN" => return Class::Float(f64::NAN), _ => {} }
    let _ = signed;
    if float_syntax(body) { let f: f64 = body.parse().unwrap(); if f.is_finite() { return Class::Float(if neg { -f } else { f }); } }
    Class::Str
}
/// digits [. digits] [e [sign] digits], at least one mantissa digit
pub fn float_syntax(b: &str) -> bool {
    let b = b.as_bytes(); let mut i = 0; let d = |i: &mut usize| { let s = *i; while *i < b.len() && b[*i].is_ascii_digit() { *i += 1; } *i - s };
    let mut n = d(&mut i);
    if i < b.len() && b[i] == b'.' { i += 1; n += d(&mut i); }
    if n == 0 { return false; }
    if i < b.len() && (b[i] | 32) == b'e' { i += 1; if i < b.len() && (b[i] == b'+' || b[i] == b'-') { i += 1; } if d(&mut i) == 0 { return false; } }
    i == b.len()
}
pub fn plain_value(s: &str) -> Option<Value> {
    Some(match classify(s) {
        Class::Null => Value::Null, Class::Bool(b) => Value::Bool(b),
        Class::Int(false, v) => Value::Number(u64::try_from(v).ok()?.into()),
        Class::Int(true, v) => if v <= 1 << 63 { Value::Number(((v as i128).wrapping_neg() as i64).into()) } else { return None },
        Class::Float(f) => Value::Number(f.into()), Class::Str => Value::String(s.to_owned()),
    })
}
/// meaning as a Value; None: no faithful Value (wide integer, duplicate key, unknown alias, bad core tag)
pub fn meaning(n: &Node, env: &mut HashMap<String, Option<Value>>) -> Option<Value> {
    if let Kind::Alias(a) = &n.kind { return env.get(a).cloned().flatten(); }
    // a name means the latest node that bears it, counted by where nodes start: the marker tells whether a node inside took the name over
    let me = n as *const Node as usize;
    if let Some(a) = &n.anchor { env.insert(a.clone(), None); env.insert(format!("\0{}", a), Some(Value::from(me as u64))); }
    let core = n.tag.as_deref().and_then(|t| t.strip_prefix("!!"));
    let inner = match &n.kind {
        Kind::Scalar(s, st) => match core {
            Some("int") => match classify(s) { Class::Int(..) => plain_value(s), _ => None },
            Some("bool") => match classify(s) { Class::Bool(b) => Some(Value::Bool(b)), _ => None },
            Some("float") => match (classify(s), parse_float_tag(s)) { (_, Some(f)) => Some(Value::Number(f.into())), _ => None },
            Some("null") => if matches!(s.as_str(), "~" | "null" | "Null" | "NULL") { Some(Value::Null) } else { None },
            Some(_) => Some(Value::String(s.clone())),
            None if *st == Style::Plain => plain_value(s),
            None => Some(Value::String(s.clone())),
        },
        Kind::Seq(v) => { let mut out = vec![]; let mut ok = true; for x in v { match meaning(x, env) { Some(x) => out.push(x), None => ok = false } } if ok { Some(Value::Sequence(out)) } else { None } }
        Kind::Map(v) => { let mut m = Mapping::new(); let mut ok = true; for (k, x) in v {
            let (k, x) = (meaning(k, env), meaning(x, env));
            match (k, x) { (Some(k), Some(x)) => if m.insert(k, x).is_some() { ok = false; }, _ => ok = false } }
            if ok { Some(Value::Mapping(m)) } else { None } }
        Kind::Alias(_) => unreachable!(),
    };
    let v = match n.tag.as_deref() { Some(t) if !t.starts_with("!!") => inner.map(|v| Value::Tagged(Box::new(TaggedValue { tag: Tag::new(t), value: v }))), _ => inner };
    if let Some(a) = &n.anchor { if env.get(&format!("\0{}", a)) == Some(&Some(Value::from(me as u64))) { env.insert(a.clone(), v.clone()); } }
    v
}
fn parse_float_tag(s: &str) -> Option<f64> {
    match classify(s) { Class::Float(f) => Some(f), _ => { let (neg, b) = match s.as_bytes().first() { Some(b'-') => (true, &s[1..]), Some(b'+') => (false, &s[1..]), _ => (false, s) }; if float_syntax(b) { let f: f64 = b.parse().ok()?; if f.is_finite() { Some(if neg { -f } else { f }) } else { None } } else { None } } }
}

/// write a string value with some style that denotes exactly it
pub fn str_node(s: &str, r: &mut Rng, plain_allowed: bool) -> Node {
    let mut st = *r.pick(&[Style::Single, Style::Double, Style::Literal, Style::Folded, Style::Plain, Style::Plain]);
    if st == Style::Plain && !(plain_allowed && plain_ok(s) && classify(s) == Class::Str) { st = Style::Double; }
    if st == Style::Single && !quote_single_ok(s) { st = Style::Double; }
    if st == Style::Literal && !literal_ok(s) || s.starts_with(' ') || s.starts_with('\n') { st = if st == Style::Literal || st == Style::Folded { Style::Double } else { st }; }
    if st == Style::Folded && (s.contains('\n') || !literal_ok(s)) { st = Style::Double; }
    Node { tag: None, anchor: None, kind: Kind::Scalar(s.to_owned(), st), flow: false }
}
pub fn int_text(n: i128, r: &mut Rng) -> String {
    let (neg, m) = (n < 0, n.unsigned_abs());
    let body = match r.below(6) { 0 => format!("0x{:x}", m), 1 => format!("0x{:X}", m), 2 => format!("0o{:o}", m), 3 => format!("0b{:b}", m), _ => m.to_string() };
    if neg { format!("-{}", body) } else if r.chance(1, 8) { format!("+{}", body) } else { body }
}
pub fn float_text(f: f64, r: &mut Rng) -> String {
    if f.is_nan() { return r.pick(&[".nan", ".NaN", ".NAN"]).to_string(); }
    if f.is_infinite() { return if f > 0.0 { r.pick(&[".inf", ".Inf", ".INF", "+.inf"]).to_string() } else { r.pick(&["-.inf", "-.Inf", "-.INF"]).to_string() }; }
    match r.below(3) { 0 => format!("{:?}", f), 1 => format!("{:e}", f).replace("e", if r.chance(1, 2) { "e" } else { "E" }), _ => { let s = format!("{}", f); if s.contains('.') || s.len() > 100 { format!("{:?}", f) } else { s + ".0" } } }
}
/// write a typed value; structs get shuffled fields and unknown extra entries
pub fn of_val(v: &Val, t: &Ty, r: &mut Rng, extra: bool) -> Node {
    let mut n = match (v, t) {
        (Val::Bool(b), _) => plain(r.s(&if *b { ["true", "True", "TRUE"] } else { ["false", "False", "FALSE"] })),
        (Val::I8(x), _) => plain(&int_text(*x as i128, r)), (Val::I16(x), _) => plain(&int_text(*x as i128, r)), (Val::I32(x), _) => plain(&int_text(*x as i128, r)), (Val::I64(x), _) => plain(&int_text(*x as i128, r)),
        (Val::I128(x), _) => plain(&int_text(*x, r)), (Val::U8(x), _) => plain(&int_text(*x as i128, r)), (Val::U16(x), _) => plain(&int_text(*x as i128, r)), (Val::U32(x), _) => plain(&int_text(*x as i128, r)), (Val::U64(x), _) => plain(&int_text(*x as i128, r)),
        (Val::U128(x), _) => plain(&match r.below(3) { 0 => format!("0x{:x}", x), 1 => format!("+{}", x), _ => x.to_string() }),
        (Val::F32(x), _) => plain(&if x.is_finite() { format!("{:?}", x) } else { float_text(*x as f64, r) }), (Val::F64(x), _) => plain(&float_text(*x, r)),
        (Val::Char(c), _) => str_node(&c.to_string(), r, true), (Val::Str(s), _) => str_node(s, r, true),
        (Val::Unit, _) | (Val::UnitStruct, _) | (Val::None, _) => plain(r.s(&["null", "~", "Null", "NULL"])),
        (Val::Ignored, _) => junk(r, 2),
        (Val::Any(v), _) => of_value(v, r),
        (Val::Some(v), Ty::Opt(t)) => of_val(v, t, r, extra), (Val::Newtype(v), Ty::Newtype(t)) => of_val(v, t, r, extra),
        (Val::Seq(v, _), Ty::Seq(t)) => seq(v.iter().map(|x| of_val(x, t, r, extra)).collect()),
        (Val::Tuple(v), Ty::Tuple(t)) | (Val::TupleStruct(v), Ty::TupleStruct(t)) => seq(v.iter().zip(t).map(|(x, t)| of_val(x, t, r, extra)).collect()),
        (Val::Map(v, _), Ty::Map(k, t)) => map(v.iter().map(|(a, b)| (of_val(a, k, r, extra), of_val(b, t, r, extra))).collect()),
        (Val::Struct(b, v), Ty::Struct(_, t, deny)) => struct_node(*b, v, t, r, extra, *deny),
        (Val::Enum(b, i, v), Ty::Enum(_, ts)) => {
            let name = VARIANTS[b + i];
            match (&**v, &ts[*i]) {
                (VVal::Unit, _) => if r.chance(1, 3) { plain("").tagged(&format!("!{}", name)) } else { str_node(name, r, true) },
                (VVal::Newtype(x), VTy::Newtype(t)) => of_val(x, t, r, extra).tagged(&format!("!{}", name)),
                (VVal::Tuple(x), VTy::Tuple(t)) => seq(x.iter().zip(t).map(|(x, t)| of_val(x, t, r, extra)).collect()).tagged(&format!("!{}", name)),
                (VVal::Struct(fb, x), VTy::Struct(_, t)) => struct_node(*fb, x, t, r, extra, false).tagged(&format!("!{}", name)),
                _ => unreachable!(),
            }
        }
        (v, t) => unreachable!("{:?} {:?}", v, t),
    };
    if r.chance(1, 3) { n.flow = true; }
    n
}
fn struct_node(base: usize, v: &[Val], t: &[Ty], r: &mut Rng, extra: bool, deny: bool) -> Node {
    let mut es: Vec<(Node, Node)> = v.iter().zip(t).enumerate().map(|(i, (x, t))| (str_node(FIELDS[base + i], r, true), of_val(x, t, r, extra))).collect();
    if extra {
        for _ in 0..r.below(3) { if !deny { let i = r.below(es.len() + 1); es.insert(i, (str_node(&format!("unknown{}", r.below(100)), r, true), junk(r, 3))); } }
        if r.chance(1, 2) && es.len() > 1 { let i = r.below(es.len()); let j = r.below(es.len()); es.swap(i, j); }
    }
    map(es)
}
/// any node at all, to be ignored
pub fn junk(r: &mut Rng, d: usize) -> Node {
    let mut n = if d == 0 { str_node(&gen::string(r), r, true) } else { match r.below(6) {
        0 | 1 => { let n = r.below(4); seq((0..n).map(|_| junk(r, d - 1)).collect()) }
        2 | 3 => { let n = r.below(4); map((0..n).map(|_| (junk(r, d - 1), junk(r, d - 1))).collect()) }
        4 => plain(r.s(&["1", "null", "~", "true", "x", "1.5", "-7"])),
        _ => str_node(&gen::string(r), r, true) } };
    if r.chance(1, 6) { n.tag = Some(r.pick(&["!t", "!Alpha", "!!str", "!!int", "!"]).to_string()); }
    if r.chance(1, 3) { n.flow = true; }
    n
}
pub fn of_value(v: &Value, r: &mut Rng) -> Node {
    let mut n = match v {
        Value::Null => plain(r.s(&["null", "~", "Null", "NULL"])),
        Value::Bool(b) => plain(r.s(&if *b { ["true", "True", "TRUE"] } else { ["false", "False", "FALSE"] })),
        Value::Number(n) => if let Some(x) = n.as_u64() { plain(&int_text(x as i128, r)) } else if let Some(x) = n.as_i64() { plain(&int_text(x as i128, r)) } else { plain(&float_text(n.as_f64().unwrap(), r)) },
        Value::String(s) => str_node(s, r, true),
        Value::Sequence(v) => seq(v.iter().map(|x| of_value(x, r)).collect()),
        Value::Mapping(m) => map(m.iter().map(|(k, x)| (of_value(k, r), of_value(x, r))).collect()),
        Value::Tagged(t) => { let n = of_value(&t.value, r); let name = gen::bare(&t.tag); n.tagged(&tag_text(&name)) }
    };
    if r.chance(1, 3) { n.flow = true; }
    n
}
pub fn tag_text(name: &str) -> String {
    let mut s = String::from("!");
    if name == "!" { return s; }
    for b in name.bytes() { if b.is_ascii_alphanumeric() || b"-_.".contains(&b) { s.push(b as char) } else { s.push_str(&format!("%{:02X}", b)) } }
    s
}
#[allow(dead_code)] pub fn ms() -> MapStyle { MapStyle::Entry }
