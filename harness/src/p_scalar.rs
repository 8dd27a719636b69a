//! C01 C02 C03 C04
use crate::dynty::{Seed, Ty, Val};
use crate::ensure;
use crate::fw::*;
use crate::gen;
use crate::yamlgen::*;
use serde::de::DeserializeSeed;
use serde::Deserialize;
use serde_yaml::{Deserializer, Number, Value};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: "plain scalars: every string up to length 4 over 23 letters used by the grammar, then mutated literals; each at every primitive type, in several styles and tags, against an independent statement of the grammar", fixed: 1 + 23 + 23 * 23 + 400, case: c01, quick: 40_000 },
        Prop { id: "C02", rule: "strings: every Unicode scalar value alone and between letters, then tricky, mutated and random strings, in every position, against the string itself", fixed: 1088 + 40, case: c02, quick: 30_000 },
        Prop { id: "C03", rule: "numbers, booleans, unit: boundary and random values of every width written and read back at the same type and as a Value, against the value itself", fixed: 65_536 / 64 + 8, case: c03, quick: 60_000 },
        Prop { id: "C04", rule: "Number from boundary and random primitives of every width: accessors, predicates, equality, order, text, against i128/f64 arithmetic", fixed: 1024, case: c04, quick: 80_000 },
    ]
}

pub fn read<'de, T: Deserialize<'de>>(s: &'de str) -> Result<T, String> { serde_yaml::from_str::<T>(s).map_err(|e| e.to_string()) }
pub fn read_ty(s: &str, t: &Ty) -> Result<Val, String> { Seed(t).deserialize(Deserializer::from_str(s)).map_err(|e| e.to_string()) }

const ALPHA: &[char] = &['0', '1', '7', '8', '9', 'a', 'x', 'o', 'b', 'e', 'E', '-', '+', '.', '_', 'n', 'N', 'i', 'f', 't', '~', ' ', ':'];

fn c01(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    let a = ALPHA.len() as u64;
    if i == 0 { for s in gen::TRICKY { c01_all(cx, s, r)?; } for c in ALPHA { c01_all(cx, &c.to_string(), r)?; } return c01_all(cx, "", r); }
    if i <= a { // length 2
        for c in ALPHA { c01_all(cx, &[ALPHA[(i - 1) as usize], *c].iter().collect::<String>(), r)?; }
        return Ok(());
    }
    if i <= a + a * a { // lengths 3 and 4 under one 2-letter prefix
        let k = i - 1 - a; let p: String = [ALPHA[(k / a) as usize], ALPHA[(k % a) as usize]].iter().collect();
        for c in ALPHA { let s = format!("{}{}", p, c); c01_all(cx, &s, r)?; for d in ALPHA { c01_fast(cx, &format!("{}{}", s, d))?; } }
        return Ok(());
    }
    let s = match r.below(6) {
        0 => gen::mutate(r.s(gen::TRICKY), r),
        1 => int_text(if r.chance(1, 2) { gen::i128v(r) } else { gen::i64v(r) as i128 }, r),
        2 => { let s = int_text(gen::i128v(r), r); gen::mutate(&s, r) }
        3 => { let s = float_text(gen::float(r), r); if r.chance(1, 2) { gen::mutate(&s, r) } else { s } }
        4 => { let u = gen::u128v(r); match r.below(5) { 0 => format!("0x{:x}", u), 1 => format!("{}0", u), 2 => format!("0b{:b}", u), 3 => format!("-{}", u), _ => u.to_string() } }
        _ => { let n = r.range(1, 9); (0..n).map(|_| *r.pick(ALPHA)).collect() }
    };
    c01_all(cx, &s, r)
}
fn int_of(c: &Class) -> Option<(bool, u128)> { match c { Class::Int(n, v) => Some((*n, *v)), _ => None } }
macro_rules! int_case { ($t:ty, $text:expr, $cls:expr, $ok:expr) => {{
    let want: Option<$t> = if !$ok || <$t>::MIN == 0 && $text.contains(" -") { None } else { int_of($cls).and_then(|(n, v)| if n { if v <= 1u128 << 127 { <$t>::try_from((v as i128).wrapping_neg()).ok() } else { None } } else { <$t>::try_from(v).ok() }) };
    let got = read::<$t>($text);
    ensure!(got.as_ref().ok() == want.as_ref(), $text, "as {}: got {:?}, the grammar says {:?}", stringify!($t), got, want);
}} }
fn feq(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan() }
fn float_want(s: &str) -> Option<f64> {
    match classify(s) { Class::Float(f) => Some(f), _ => { let (neg, b) = match s.as_bytes().first() { Some(b'-') => (true, &s[1..]), Some(b'+') => (false, &s[1..]), _ => (false, s) }; if float_syntax(b) { let f: f64 = b.parse().ok()?; if f.is_finite() { Some(if neg { -f } else { f }) } else { None } } else { None } } }
}
fn c01_fast(cx: &mut Cx, s: &str) -> R {
    if !plain_ok(s) { return Ok(()); }
    let text = format!("--- {}\n", s);
    cx.seen(s, classify(s) != Class::Str);
    let want = plain_value(s);
    let got = read::<Value>(&text);
    match (&got, &want) { (Ok(a), Some(b)) if gen::same(a, b) => {} (Err(_), None) => {} _ => return fail(format!("as Value: got {:?}, the grammar says {:?}", got, want), text) }
    let n = s.parse::<Number>().ok();
    let wn = match &want { Some(Value::Number(n)) => Some(n.clone()), _ => None };
    ensure!(match (&n, &wn) { (Some(a), Some(b)) => gen::same_num(a, b), (None, None) => true, _ => false }, s, "Number::from_str: got {:?}, the grammar says {:?}", n, wn);
    Ok(())
}
fn c01_all(cx: &mut Cx, s: &str, r: &mut Rng) -> R {
    let cls = classify(s);
    // Number's own parser takes any text
    let wn = match plain_value(s) { Some(Value::Number(n)) => Some(n), _ => None };
    if !(matches!(cls, Class::Int(..)) && wn.is_none()) {
        let n = s.parse::<Number>().ok();
        ensure!(match (&n, &wn) { (Some(a), Some(b)) => gen::same_num(a, b), (None, None) => true, _ => false }, s, "Number::from_str: got {:?}, the grammar says {:?}", n, wn);
    } else { ensure!(s.parse::<Number>().is_err(), s, "Number::from_str accepts an integer that no Number can hold"); }
    let plainable = plain_ok(s) || s.is_empty();
    cx.seen(s, cls != Class::Str);
    if plainable {
        let shapes: &[&str] = &["--- @\n", "- @\n", "[@]\n", "k: @\n", "{k: @}\n", "--- !!int @\n", "--- !!bool @\n", "--- !!float @\n", "--- !!str @\n", "--- !!null @\n", "--- !t @\n"];
        for (j, sh) in shapes.iter().enumerate() {
            if (s.is_empty() || s.contains([':', '?'])) && matches!(j, 2 | 4) { continue; }
            if j > 0 && j < 5 && !r.chance(1, 3) { continue; }
            let text = sh.replace('@', s);
            cx.note(&text);
            let got = match j { 0 => read::<Value>(&text), 1 | 2 => read::<Vec<Value>>(&text).map(|mut v| v.pop().unwrap_or(Value::String("MISSING".into()))), 3 | 4 => read::<std::collections::BTreeMap<String, Value>>(&text).map(|mut m| m.remove("k").unwrap_or(Value::String("MISSING".into()))), _ => read::<Value>(&text) };
            let want = match j {
                0..=4 => plain_value(s),
                _ => { let tag = sh[4..].split(' ').next().unwrap(); meaning(&plain(s).tagged(tag), &mut Default::default()) }
            };
            match (&got, &want) { (Ok(a), Some(b)) if gen::same(a, b) => {} (Err(_), None) => {} _ => return fail(format!("as Value: got {:?}, the grammar says {:?}", got, want), text) }
        }
        let text = if r.chance(1, 2) { format!("--- {}\n", s) } else { format!("--- {} # c\n", s) };
        let t = text.as_str();
        let b = read::<bool>(t); let wb = match cls { Class::Bool(b) => Some(b), _ => None };
        ensure!(b.as_ref().ok() == wb.as_ref(), t, "as bool: got {:?}, the grammar says {:?}", b, wb);
        int_case!(i8, t, &cls, true); int_case!(i16, t, &cls, true); int_case!(i32, t, &cls, true); int_case!(i64, t, &cls, true); int_case!(i128, t, &cls, true);
        int_case!(u8, t, &cls, true); int_case!(u16, t, &cls, true); int_case!(u32, t, &cls, true); int_case!(u64, t, &cls, true); int_case!(u128, t, &cls, true);
        let wf = float_want(s);
        let f = read::<f64>(t);
        ensure!(match (&f, wf) { (Ok(a), Some(b)) => feq(*a, b), (Err(_), None) => true, _ => false }, t, "as f64: got {:?}, the grammar says {:?}", f, wf);
        let f = read::<f32>(t);
        ensure!(match (&f, wf) { (Ok(a), Some(b)) => feq(*a as f64, b as f32 as f64), (Err(_), None) => true, _ => false }, t, "as f32: got {:?}, the grammar says {:?}", f, wf.map(|f| f as f32));
        let n = read::<Number>(t); let wn = match plain_value(s) { Some(Value::Number(n)) => Some(n), _ => None };
        ensure!(match (&n, &wn) { (Ok(a), Some(b)) => gen::same_num(a, b), (Err(_), None) => true, _ => false }, t, "as Number: got {:?}, the grammar says {:?}", n, wn);
        let u = read::<()>(t);
        ensure!(u.is_ok() == (cls == Class::Null), t, "as unit: got {:?}, the grammar says {:?}", u, cls);
        let o = read::<Option<String>>(t);
        let wo = if cls == Class::Null { None } else { Some(s.to_string()) };
        ensure!(o.as_ref().ok() == Some(&wo), t, "as Option<String>: got {:?}, the grammar says {:?}", o, wo);
        let st = read::<String>(t);
        ensure!(st.as_deref().ok() == Some(s), t, "as String: got {:?}", st);
        let ch = read::<char>(t); let mut it = s.chars(); let wc = match (it.next(), it.next()) { (Some(c), None) => Some(c), _ => None };
        ensure!(ch.as_ref().ok() == wc.as_ref(), t, "as char: got {:?}", ch);
    }
    // quoted and block scalars are strings whatever they look like
    for st in [Style::Single, Style::Double, Style::Literal, Style::Folded] {
        if st == Style::Single && !quote_single_ok(s) || matches!(st, Style::Literal | Style::Folded) && (!literal_ok(s) || s.contains('\n') || s.starts_with(' ')) { continue; }
        let n = Node { tag: None, anchor: None, kind: Kind::Scalar(s.to_owned(), st), flow: false };
        let t = W::doc(&n); let t = t.as_str();
        let v = read::<Value>(t);
        ensure!(matches!(&v, Ok(Value::String(x)) if x == s), t, "quoted as Value: got {:?}", v);
        ensure!(read::<bool>(t).is_err(), t, "quoted text read as bool");
        ensure!(read::<i64>(t).is_err() && read::<u64>(t).is_err() && read::<i128>(t).is_err() && read::<u128>(t).is_err() && read::<u8>(t).is_err(), t, "quoted text read as an integer");
        ensure!(read::<f64>(t).is_err(), t, "quoted text read as f64");
        ensure!(read::<()>(t).is_err(), t, "quoted text read as unit");
        ensure!(read::<Option<String>>(t) == Ok(Some(s.to_string())), t, "quoted text as Option<String>: {:?}", read::<Option<String>>(t));
        ensure!(read::<String>(t).as_deref() == Ok(s), t, "quoted text as String: {:?}", read::<String>(t));
    }
    Ok(())
}

// ------------------------------------------------------------------ C02
fn c02(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    if i < 1088 {
        for c in (i as u32 * 1024)..((i as u32 + 1) * 1024) {
            if let Some(c) = char::from_u32(c) {
                let mut b = [0; 4];
                str_root(cx, c.encode_utf8(&mut b))?;
                if c as u32 % 7 == 0 || (c as u32) < 0x500 { str_root(cx, &format!("a{}b", c))?; }
                if (c as u32) < 0x3000 { str_root(cx, &format!("\n{}", c))?; str_root(cx, &format!("{}\n", c))?; str_root(cx, &format!("a\n{}b\n", c))?;
                    let t = out(&c)?; ensure!(read::<char>(&t) == Ok(c), t, "char {:?} reads back as {:?}", c, read::<char>(&t)); }
            }
        }
        return Ok(());
    }
    if i < 1128 { let k = (i - 1088) as usize; for (j, s) in gen::TRICKY.iter().enumerate() { if j % 40 == k { str_everywhere(cx, s, r)?; for p in gen::TRICKY { str_root(cx, &format!("{}{}", s, p))?; } } } return Ok(()); }
    if i == 1128 {
        // a string longer than libyaml's i32 lengths: refused, never cut short. The bytes are untouched zero pages.
        let s = String::from_utf8(vec![0u8; (1usize << 32) + 5]).unwrap();
        if let Ok(t) = serde_yaml::to_string(s.as_str()) { ensure!(t.len() > 1usize << 32, &t[..t.len().min(60)], "a string of 2^32 + 5 bytes is written as a text of {} bytes", t.len()); }
        return Ok(());
    }
    if i % 100 == 57 {
        let s = gen::long_string(r, 70_000); cx.note(&format!("{:?}", s));
        str_root(cx, &s)?;
        let v = Value::Sequence(vec![Value::Mapping([(Value::from("k"), Value::from(s.as_str()))].into_iter().collect()), s.as_str().into(), "after".into()]);
        let t = out(&v)?; let g = read::<Value>(&t); ensure!(matches!(&g, Ok(g) if gen::same(g, &v)), format!("{:?} -> {:?}", s, t), "a string of {} bytes does not survive inside a collection", s.len());
        let v = Value::Mapping([(Value::from(s.as_str()), Value::from("v")), ("z".into(), 1.into())].into_iter().collect());
        let t = out(&v)?; let g = read::<Value>(&t); ensure!(matches!(&g, Ok(g) if gen::same(g, &v)), format!("{:?} -> {:?}", s, t), "a string of {} bytes does not survive as a key", s.len());
        return Ok(());
    }
    let s = gen::string(r);
    str_everywhere(cx, &s, r)
}
pub fn out<T: serde::Serialize + ?Sized>(v: &T) -> Result<String, Fail> { serde_yaml::to_string(v).map_err(|e| Fail { what: format!("to_string failed: {}", e), input: String::new() }) }
fn str_root(cx: &mut Cx, s: &str) -> R {
    cx.seen(s, true);
    let t = out(s)?;
    let a = read::<String>(&t);
    ensure!(a.as_deref() == Ok(s), format!("{:?} -> {:?}", s, t), "string {:?} reads back as {:?}", s, a);
    let v = read::<Value>(&t);
    ensure!(matches!(&v, Ok(Value::String(x)) if x == s), format!("{:?} -> {:?}", s, t), "string {:?} reads back as Value {:?}", s, v);
    Ok(())
}
fn str_everywhere(cx: &mut Cx, s: &str, r: &mut Rng) -> R {
    cx.note(&format!("{:?}", s));
    str_root(cx, s)?;
    let o = gen::string(r);
    let sv = Val::Str(s.to_owned());
    let vs = Value::String(s.to_owned());
    let b = |t: Ty| Box::new(t);
    let cases: Vec<(Val, Ty)> = vec![
        (Val::Seq(vec![sv.clone(), Val::Str(o.clone()), sv.clone()], true), Ty::Seq(b(Ty::Str))),
        (Val::Map(vec![(sv.clone(), Val::Str(o.clone()))], crate::dynty::MapStyle::Entry), Ty::Map(b(Ty::Str), b(Ty::Str))),
        (Val::Map(vec![(Val::Str(o.clone()), sv.clone())], crate::dynty::MapStyle::KeyValue), Ty::Map(b(Ty::Str), b(Ty::Str))),
        (Val::Map(if o != s { vec![(sv.clone(), Val::Seq(vec![sv.clone()], false)), (Val::Str(o.clone()), Val::Seq(vec![sv.clone(), Val::Str(o.clone())], true))] } else { vec![] }, crate::dynty::MapStyle::Unsized), Ty::Map(b(Ty::Str), b(Ty::Seq(b(Ty::Str))))),
        (Val::Enum(0, 1, Box::new(crate::dynty::VVal::Newtype(sv.clone()))), Ty::Enum(0, vec![crate::dynty::VTy::Unit, crate::dynty::VTy::Newtype(Ty::Str)])),
        (Val::Enum(0, 0, Box::new(crate::dynty::VVal::Tuple(vec![sv.clone(), Val::Str(o.clone())]))), Ty::Enum(0, vec![crate::dynty::VTy::Tuple(vec![Ty::Str, Ty::Str])])),
        (Val::Enum(0, 0, Box::new(crate::dynty::VVal::Struct(0, vec![Val::Str(o.clone()), sv.clone()]))), Ty::Enum(0, vec![crate::dynty::VTy::Struct(0, vec![Ty::Str, Ty::Str])])),
        (Val::Struct(0, vec![sv.clone(), Val::Seq(vec![Val::Seq(vec![sv.clone()], true)], true)]), Ty::Struct(0, vec![Ty::Str, Ty::Seq(b(Ty::Seq(b(Ty::Str))))], false)),
        (Val::Some(Box::new(sv.clone())), Ty::Opt(b(Ty::Str))),
        (Val::Map(vec![(Val::Seq(vec![sv.clone()], true), sv.clone())], crate::dynty::MapStyle::Entry), Ty::Map(b(Ty::Seq(b(Ty::Str))), b(Ty::Str))),
    ];
    for (v, t) in &cases {
        let text = out(v)?;
        let got = read_ty(&text, t);
        ensure!(got.as_ref() == Ok(v), format!("{:?} -> {:?}", v, text), "{:?} reads back as {:?}", v, got);
        if let Some(m) = crate::dynty::model(v) {
            let got = read::<Value>(&text);
            ensure!(matches!(&got, Ok(g) if gen::same(g, &m)), format!("{:?} -> {:?}", v, text), "as Value reads back as {:?}, expected {:?}", got, m);
        }
    }
    // displayed in pieces
    let cut: Vec<String> = { let c: Vec<char> = s.chars().collect(); let mut v = vec![]; let mut k = 0; while k < c.len() { let n = r.range(1, 3).min(c.len() - k); v.push(c[k..k + n].iter().collect()); k += n; if r.chance(1, 5) { v.push(String::new()); } } v };
    if !(cut.iter().filter(|p| !p.is_empty()).count() == 2 && cut.iter().find(|p| !p.is_empty()).map(|p| p.as_str()) == Some("!")) {
        let p = Pieces(cut.clone());
        let t = out(&p)?; ensure!(read::<String>(&t).as_deref() == Ok(s), format!("{:?} -> {:?}", cut, t), "displayed string {:?} reads back as {:?}", s, read::<String>(&t));
        ensure!(serde_yaml::to_value(&p).ok() == Some(vs.clone()), format!("{:?}", cut), "displayed string {:?} as Value", s);
        let m = PMap(p); let t = out(&m)?; let mut w = serde_yaml::Mapping::new(); w.insert(vs.clone(), "v".into()); let w = Value::Mapping(w);
        let g = read::<Value>(&t); ensure!(matches!(&g, Ok(g) if gen::same(g, &w)), format!("{:?} -> {:?}", cut, t), "displayed key {:?} reads back as {:?}", s, g);
        let g = serde_yaml::to_value(&m); ensure!(matches!(&g, Ok(g) if gen::same(g, &w)), format!("{:?}", cut), "displayed key {:?} as Value: {:?}", s, g);
    }
    // Values: tagged string, key of a nested mapping
    let mut m = serde_yaml::Mapping::new(); m.insert(vs.clone(), vs.clone());
    let mut m2 = serde_yaml::Mapping::new(); m2.insert(Value::Mapping(m.clone()), Value::Sequence(vec![vs.clone(), Value::Mapping(m.clone())]));
    for v in [Value::Mapping(m2), Value::Tagged(Box::new(serde_yaml::value::TaggedValue { tag: serde_yaml::value::Tag::new("t"), value: vs.clone() })), Value::Sequence(vec![Value::Sequence(vec![vs.clone(), vs.clone()]), Value::Mapping(m)])] {
        let text = out(&v)?;
        let got = read::<Value>(&text);
        ensure!(matches!(&got, Ok(g) if gen::same(g, &v)), format!("{:?} -> {:?}", v, text), "reads back as {:?}", got);
    }
    if let (Some(c), None) = { let mut i = s.chars(); (i.next(), i.next()) } { let t = out(&c)?; ensure!(read::<char>(&t) == Ok(c), t, "char {:?} reads back as {:?}", c, read::<char>(&t)); ensure!(read::<Value>(&t) == Ok(vs.clone()), t, "char {:?} reads back as {:?}", c, read::<Value>(&t)); }
    Ok(())
}

// ------------------------------------------------------------------ C03
fn c03(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    macro_rules! rt { ($t:ty, $v:expr, $val:expr) => {{
        let v: $t = $v; let t = out(&v)?; cx.seen(&format!("{}:{}", stringify!($t), t), true);
        let g = read::<$t>(&t); ensure!(g.as_ref() == Ok(&v), format!("{:?} -> {:?}", v, t), "{} {:?} reads back as {:?}", stringify!($t), v, g);
        let w: Option<Value> = $val; if let Some(w) = w { let g = read::<Value>(&t); ensure!(matches!(&g, Ok(g) if gen::same(g, &w)), format!("{:?} -> {:?}", v, t), "{:?} reads back as Value {:?}", v, g);
            let t2 = out(&w)?; ensure!(t2 == t || matches!(read::<Value>(&t2), Ok(g) if gen::same(&g, &w)), t2, "Value {:?} does not survive", w); }
        let sq = vec![v, v]; let t = out(&sq)?; let g = read::<Vec<$t>>(&t); ensure!(g.as_ref() == Ok(&sq), format!("{:?} -> {:?}", sq, t), "reads back as {:?}", g);
        let t = out(&Some(v))?; let g = read::<Option<$t>>(&t); ensure!(g == Ok(Some(v)), t, "Some({:?}) reads back as {:?}", v, g);
        let mut m = std::collections::BTreeMap::new(); m.insert(v, v); let t = out(&m)?; let g = read::<std::collections::BTreeMap<$t, $t>>(&t); ensure!(g.as_ref() == Ok(&m), t, "map of {:?} reads back as {:?}", v, g);
    }} }
    macro_rules! fl { ($t:ty, $v:expr) => {{
        let v: $t = $v; let t = out(&v)?; cx.seen(&format!("{}:{}", stringify!($t), t), true);
        let g = read::<$t>(&t); ensure!(matches!(&g, Ok(g) if feq(*g as f64, v as f64)), format!("{:?} -> {:?}", v, t), "{} {:?} reads back as {:?}", stringify!($t), v, g);
        let g = read::<Value>(&t); ensure!(matches!(&g, Ok(Value::Number(n)) if n.is_f64() && feq(n.as_f64().unwrap() as $t as f64, v as f64)), format!("{:?} -> {:?}", v, t), "{:?} reads back as Value {:?}", v, g);
        let sq = vec![Some(v), None]; let t = out(&sq)?; let g = read::<Vec<Option<$t>>>(&t); ensure!(matches!(&g, Ok(g) if g.len() == 2 && g[1].is_none() && matches!(g[0], Some(x) if feq(x as f64, v as f64))), t, "reads back as {:?}", g);
    }} }
    let num = |x: i128| u64::try_from(x).map(|x| Value::Number(x.into())).ok().or_else(|| i64::try_from(x).map(|x| Value::Number(x.into())).ok());
    if i < 1024 {
        for k in (i * 64)..(i * 64 + 64) { let u = k as u16; rt!(u16, u, num(u as i128)); rt!(i16, u as i16, num(u as i16 as i128)); if u < 256 { rt!(u8, u as u8, num(u as i128)); rt!(i8, u as u8 as i8, num(u as u8 as i8 as i128)); } fl!(f32, f32::from_bits((k as u32) << 16)); fl!(f64, f64::from_bits(k << 48)); }
        return Ok(());
    }
    if i < 1032 {
        for b in [true, false] { let t = out(&b)?; ensure!(read::<bool>(&t) == Ok(b) && read::<Value>(&t) == Ok(Value::Bool(b)), t, "bool"); }
        let t = out(&())?; ensure!(read::<()>(&t) == Ok(()) && read::<Value>(&t) == Ok(Value::Null) && read::<Option<u8>>(&t) == Ok(None), t, "unit");
        let t = out(&None::<u8>)?; ensure!(read::<()>(&t) == Ok(()) && read::<Value>(&t) == Ok(Value::Null) && read::<Option<u8>>(&t) == Ok(None), t, "None");
        let t = out(&vec![(), ()])?; ensure!(read::<Vec<()>>(&t) == Ok(vec![(), ()]), t, "units");
        struct By<'a>(&'a [u8]); impl<'a> serde::Serialize for By<'a> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(self.0) } }
        for b in [&b""[..], b"a", b"\xff", b"12"] { ensure!(serde_yaml::to_string(&By(b)).is_err(), format!("{:?}", b), "bytes serialized"); ensure!(serde_yaml::to_string(&vec![By(b)]).is_err(), format!("{:?}", b), "bytes serialized"); }
        for t in ["a", "[1]", "", "!!binary aGk="] { ensure!(read_ty(t, &Ty::Bytes).is_err(), t, "bytes read"); }
        return Ok(());
    }
    let u = gen::u64v(r); let s = gen::i64v(r); let (w, x) = (gen::i128v(r), gen::u128v(r));
    rt!(u64, u, num(u as i128)); rt!(i64, s, num(s as i128)); rt!(u32, u as u32, num(u as u32 as i128)); rt!(i32, s as i32, num(s as i32 as i128)); rt!(u128, x, u64::try_from(x).ok().map(|x| Value::Number(x.into()))); rt!(i128, w, num(w));
    rt!(usize, u as usize, num(u as i128)); rt!(isize, s as isize, num(s as i128));
    fl!(f64, gen::float(r)); fl!(f32, f32::from_bits(r.next() as u32)); fl!(f32, gen::float(r) as f32);
    Ok(())
}

// ------------------------------------------------------------------ C04
fn c04(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    #[derive(Clone, Copy, Debug)] enum M { I(i128), F(f64) }
    fn check(n: &Number, m: M) -> R {
        let inp = format!("{:?}", m);
        match m {
            M::I(v) => {
                ensure!(n.as_u64() == u64::try_from(v).ok(), inp, "as_u64 = {:?}", n.as_u64());
                ensure!(n.as_i64() == i64::try_from(v).ok(), inp, "as_i64 = {:?}", n.as_i64());
                ensure!(n.as_f64() == Some(v as f64), inp, "as_f64 = {:?}", n.as_f64());
                ensure!(n.is_u64() == u64::try_from(v).is_ok() && n.is_i64() == i64::try_from(v).is_ok() && !n.is_f64(), inp, "is_*: {} {} {}", n.is_u64(), n.is_i64(), n.is_f64());
                ensure!(!n.is_nan() && !n.is_infinite() && n.is_finite(), inp, "classification");
                ensure!(n.to_string() == v.to_string(), inp, "prints as {}", n);
            }
            M::F(f) => {
                ensure!(n.as_u64().is_none() && n.as_i64().is_none(), inp, "integer accessors on a float: {:?} {:?}", n.as_u64(), n.as_i64());
                ensure!(matches!(n.as_f64(), Some(g) if feq(f, g)), inp, "as_f64 = {:?}", n.as_f64());
                ensure!(!n.is_u64() && !n.is_i64() && n.is_f64(), inp, "is_*");
                ensure!(n.is_nan() == f.is_nan() && n.is_infinite() == f.is_infinite() && n.is_finite() == f.is_finite(), inp, "classification {} {} {}", n.is_nan(), n.is_infinite(), n.is_finite());
            }
        }
        let t = n.to_string();
        let b = t.parse::<Number>();
        ensure!(matches!(&b, Ok(b) if gen::same_num(b, n) && b == n), inp, "prints as {:?}, which parses as {:?}", t, b.map_err(|e| e.to_string()));
        let o = serde_yaml::to_string(n).unwrap_or_default(); let b = read::<Number>(&o);
        ensure!(matches!(&b, Ok(b) if gen::same_num(b, n)), inp, "is written as {:?}, which reads as {:?}", o, b);
        let v = Value::Number(n.clone());
        let w = serde_yaml::to_value(n); ensure!(matches!(&w, Ok(w) if gen::same(w, &v)), inp, "to_value gives {:?}", w);
        let b = Number::deserialize(&v); ensure!(matches!(&b, Ok(b) if gen::same_num(b, n)), inp, "from a reference {:?}", b);
        let b = serde_yaml::from_value::<Number>(v.clone()); ensure!(matches!(&b, Ok(b) if gen::same_num(b, n)), inp, "from_value gives {:?}", b);
        let b = Number::deserialize(n); ensure!(matches!(&b, Ok(b) if gen::same_num(b, n)), inp, "Number from &Number {:?}", b);
        let b = Number::deserialize(n.clone()); ensure!(matches!(&b, Ok(b) if gen::same_num(b, n)), inp, "Number from Number {:?}", b);
        ensure!(v.as_u64() == n.as_u64() && v.as_i64() == n.as_i64() && v.is_f64() == n.is_f64() && v.is_u64() == n.is_u64() && v.is_i64() == n.is_i64(), inp, "Value accessors differ");
        Ok(())
    }
    let mut v: Vec<(Number, M)> = vec![];
    macro_rules! add { ($x:expr) => { let x = $x; v.push((Number::from(x), M::I(x as i128))); } }
    let (u, s) = if i < 1024 { (i * 64, i as i64 - 512) } else { (gen::u64v(r), gen::i64v(r)) };
    add!(u); add!(u as u32); add!(u as u16); add!(u as u8); add!(u as usize); add!(s); add!(s as i32); add!(s as i16); add!(s as i8); add!(s as isize); add!(u as i64); add!(s as u64);
    let f = gen::float(r); v.push((Number::from(f), M::F(f))); let f = if r.chance(1, 2) { gen::float(r) as f32 } else { f32::from_bits(r.next() as u32) }; v.push((Number::from(f), M::F(f as f64)));
    v.push((Number::from(u as f64), M::F(u as f64))); v.push((Number::from(s as f64), M::F(s as f64)));
    for (n, m) in &v { cx.seen(&n.to_string(), true); check(n, *m)?; }
    for (a, x) in &v { for (b, y) in &v {
        let inp = format!("{:?} {:?}", x, y);
        let want = match (x, y) { (M::I(p), M::I(q)) => p == q, (M::F(p), M::F(q)) => p == q || p.is_nan() && q.is_nan(), _ => false };
        ensure!((a == b) == want, inp, "== is {}", a == b);
        let ord = match (x, y) { (M::I(p), M::I(q)) => Some(p.cmp(q)), (M::F(p), M::F(q)) => if p.is_nan() && q.is_nan() { Some(std::cmp::Ordering::Equal) } else { p.partial_cmp(q) }, (M::I(_), M::F(_)) => Some(std::cmp::Ordering::Less), (M::F(_), M::I(_)) => Some(std::cmp::Ordering::Greater) };
        if ord.is_some() { ensure!(a.partial_cmp(b) == ord, inp, "order is {:?}, expected {:?}", a.partial_cmp(b), ord); }
        if want { use std::hash::{Hash, Hasher}; let h = |n: &Number| { let mut s = std::collections::hash_map::DefaultHasher::new(); n.hash(&mut s); s.finish() }; ensure!(h(a) == h(b), inp, "equal Numbers hash differently"); }
    } }
    Ok(())
}

struct Pieces(Vec<String>);
impl std::fmt::Display for Pieces { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { for s in &self.0 { f.write_str(s)?; } Ok(()) } }
impl serde::Serialize for Pieces { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self) } }
struct PMap(Pieces);
impl serde::Serialize for PMap { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { use serde::ser::SerializeMap; let mut m = s.serialize_map(Some(1))?; m.serialize_entry(&self.0, "v")?; m.end() } }
