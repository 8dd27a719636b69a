//! C05 C06 C07 C08 C09 C22
use crate::ensure;
use crate::fw::*;
use crate::gen::{self, bare, same, Opts, FULL};
use crate::p_scalar::{out, read};
use crate::yamlgen::{self, W};
use serde_yaml::mapping::Entry;
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Number, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C05", rule: "pools of related values (copies, permuted mappings, one-place changes): every pair and triple checked for the laws of equality, hashing and order, against a structural comparison written here", fixed: 64, case: c05, quick: 6_000 },
        Prop { id: "C06", rule: "tag names and tagged values: comparisons against the bare names, text and to_value round trips, nested tags refused; enum variants written and read", fixed: 30, case: c06, quick: 30_000 },
        Prop { id: "C07", rule: "histories of up to 40 mapping operations through every entry point and key type, against a plain vector of pairs", fixed: 16, case: c07, quick: 20_000 },
        Prop { id: "C08", rule: "get, get_mut, [] and []= with integer, string and Value indices on random values, against a direct walk, whole value compared afterwards", fixed: 16, case: c08, quick: 40_000 },
        Prop { id: "C09", rule: "random Value trees seeded with << entries of every shape, against a merge written here from the statement", fixed: 16, case: c09, quick: 40_000 },
        Prop { id: "C22", rule: "conversions from every primitive, kind tests and content accessors on every kind under zero to three tags, comparisons with every primitive type", fixed: 256, case: c22, quick: 60_000 },
    ]
}
fn hash1<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

/// structural equality, written from the statement
pub fn meq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Null, Value::Null) => true, (Value::Bool(x), Value::Bool(y)) => x == y, (Value::String(x), Value::String(y)) => x.as_bytes() == y.as_bytes(),
        (Value::Number(x), Value::Number(y)) => neq(x, y),
        (Value::Sequence(x), Value::Sequence(y)) => x.len() == y.len() && (0..x.len()).all(|i| meq(&x[i], &y[i])),
        (Value::Mapping(x), Value::Mapping(y)) => { let (x, y): (Vec<_>, Vec<_>) = (x.iter().collect(), y.iter().collect()); x.len() == y.len() && x.iter().all(|(k, v)| y.iter().any(|(l, w)| meq(k, l) && meq(v, w))) }
        (Value::Tagged(x), Value::Tagged(y)) => bare(&x.tag) == bare(&y.tag) && meq(&x.value, &y.value),
        _ => false,
    }
}
fn neq(x: &Number, y: &Number) -> bool {
    match (x.is_f64(), y.is_f64()) { (false, false) => x.as_u64() == y.as_u64() && x.as_i64() == y.as_i64(), (true, true) => { let (a, b) = (x.as_f64().unwrap(), y.as_f64().unwrap()); a == b || a.is_nan() && b.is_nan() } _ => false }
}
/// a copy with mappings permuted (equal) and tags respelled (equal)
pub fn permute(v: &Value, r: &mut Rng) -> Value {
    match v {
        Value::Sequence(s) => Value::Sequence(s.iter().map(|x| permute(x, r)).collect()),
        Value::Mapping(m) => { let mut e: Vec<(Value, Value)> = m.iter().map(|(k, v)| (permute(k, r), permute(v, r))).collect(); for i in (1..e.len()).rev() { let j = r.below(i + 1); e.swap(i, j); } Value::Mapping(e.into_iter().collect()) }
        Value::Tagged(t) => { let b = bare(&t.tag); Value::Tagged(Box::new(TaggedValue { tag: Tag::new(if b != "!" && r.chance(1, 2) { format!("!{}", b) } else { b }), value: permute(&t.value, r) })) }
        Value::Number(n) if n.is_f64() && n.as_f64() == Some(0.0) && r.chance(1, 2) => Value::Number(Number::from(if r.chance(1, 2) { 0.0 } else { -0.0 })),
        Value::Number(n) if n.is_nan() => Value::Number(Number::from(if r.chance(1, 2) { f64::NAN } else { -f64::NAN })),
        v => v.clone(),
    }
}
/// change one place
pub fn tweak(v: &Value, r: &mut Rng) -> Value {
    let small = Opts { depth: 1, strings: false, ..FULL };
    match v {
        Value::Sequence(s) if !s.is_empty() && r.chance(3, 4) => { let mut s = s.clone(); let i = r.below(s.len()); match r.below(4) { 0 => { s.remove(i); } 1 => s.insert(i, gen::value(r, small)), _ => s[i] = tweak(&s[i].clone(), r) } Value::Sequence(s) }
        Value::Mapping(m) if !m.is_empty() && r.chance(3, 4) => {
            let mut e: Vec<(Value, Value)> = m.clone().into_iter().collect(); let i = r.below(e.len());
            match r.below(4) { 0 => { e.remove(i); } 1 => { let k = tweak(&e[i].0, r); e[i].0 = k } _ => { let k = tweak(&e[i].1, r); e[i].1 = k } } Value::Mapping(e.into_iter().collect()) }
        Value::Tagged(t) if r.chance(1, 2) => Value::Tagged(Box::new(TaggedValue { tag: t.tag.clone(), value: tweak(&t.value, r) })),
        Value::Tagged(t) => if r.chance(1, 2) { t.value.clone() } else { Value::Tagged(Box::new(TaggedValue { tag: Tag::new(gen::tagname(r)), value: t.value.clone() })) },
        Value::Number(n) => match r.below(3) { 0 => Value::Number(gen::number(r)), 1 => Value::Number(n.as_f64().unwrap().into()), _ => n.as_u64().map_or(Value::Null, |n| n.wrapping_add(1).into()) },
        v => if r.chance(1, 2) { gen::value(r, small) } else { Value::Sequence(vec![v.clone()]) },
    }
}
fn c05(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    let o = match r.below(3) { 0 => Opts { depth: 1, nested_tags: true, ..FULL }, 1 => Opts { depth: 3, strings: false, nested_tags: true, ..FULL }, _ => Opts { depth: 4, maxlen: 3, strings: false, ..FULL } };
    let mut pool: Vec<Value> = vec![];
    if i >= 64 && i % 25 == 7 {
        let n = gen::biglen(r, 140);
        let b = match r.below(4) { 0 | 1 => Value::Mapping(gen::big_map(r, n)), 2 => Value::Sequence(gen::big_seq(r, n)), _ => Value::String(gen::long_string(r, 3000)) };
        pool.push(b);
        while pool.len() < 5 { let p = r.pick(&pool).clone(); pool.push(match r.below(6) { 0 | 1 => permute(&p, r), 2 | 3 => tweak(&p, r), 4 => match &p { Value::Sequence(s) => Value::Sequence(s[..r.below(s.len() + 1)].to_vec()), Value::Mapping(m) => { let k = r.below(m.len() + 1); Value::Mapping(m.clone().into_iter().take(k).collect()) } Value::String(s) => { let mut c: Vec<char> = s.chars().collect(); if !c.is_empty() { let j = r.below(c.len()); c[j] = 'q'; } Value::String(c.into_iter().collect()) } p => p.clone() },
            _ => Value::Tagged(Box::new(TaggedValue { tag: Tag::new("t"), value: p })) }); }
    } else if i < 64 { // mappings used as keys, and every small kind
        let b = gen::value(r, Opts { depth: 2, strings: false, ..FULL });
        let mk = |v: Vec<(Value, Value)>| Value::Mapping(v.into_iter().collect());
        let k1 = mk(vec![("a".into(), b.clone()), ("b".into(), 1.into())]); let k2 = mk(vec![("b".into(), 2.into()), ("a".into(), b.clone())]);
        pool.push(mk(vec![(k1.clone(), 1.into()), (k2.clone(), 2.into())]));
        pool.push(mk(vec![(permute(&k2, r), 2.into()), (permute(&k1, r), 1.into())]));
        pool.extend([Value::Null, true.into(), false.into(), 0.into(), 0.0.into(), (-0.0).into(), f64::NAN.into(), "".into(), "null".into(), Value::Sequence(vec![]), mk(vec![])]);
    } else {
        let b = gen::value(r, o); pool.push(b);
        while pool.len() < 8 { let p = r.pick(&pool).clone(); pool.push(match r.below(5) { 0 | 1 => permute(&p, r), 2 | 3 => tweak(&p, r), _ => gen::value(r, o) }); }
    }
    cx.note(&format!("{:?}", pool));
    laws(cx, &pool, "Value", |a, b| meq(a, b))?;
    for a in &pool { for b in &pool {
        match (a, b) {
            (Value::Sequence(x), Value::Sequence(y)) => {
                let mut w = x.len().partial_cmp(&y.len()); for (p, q) in x.iter().zip(y) { match p.partial_cmp(q) { Some(Ordering::Equal) => {} o => { w = o; break; } } }
                ensure!(a.partial_cmp(b) == w, format!("{:?} / {:?}", a, b), "sequence order is {:?}, lexicographic order is {:?}", a.partial_cmp(b), w);
            }
            (Value::Number(x), Value::Number(y)) => if x.is_f64() == y.is_f64() {
                let w = if x.is_f64() { let (p, q) = (x.as_f64().unwrap(), y.as_f64().unwrap()); if p.is_nan() && q.is_nan() { Some(Ordering::Equal) } else { p.partial_cmp(&q) } } else { let g = |n: &Number| n.as_u64().map(|n| n as i128).or(n.as_i64().map(|n| n as i128)).unwrap(); Some(g(x).cmp(&g(y))) };
                ensure!(a.partial_cmp(b) == w, format!("{:?} / {:?}", a, b), "number order is {:?}, expected {:?}", a.partial_cmp(b), w);
            },
            _ => {}
        }
    } }
    let maps: Vec<Mapping> = pool.iter().filter_map(|v| v.as_mapping().cloned()).collect();
    laws(cx, &maps, "Mapping", |a, b| meq(&Value::Mapping(a.clone()), &Value::Mapping(b.clone())))?;
    let nums: Vec<Number> = pool.iter().filter_map(|v| match v { Value::Number(n) => Some(n.clone()), _ => None }).chain((0..4).map(|_| gen::number(r))).chain([Number::from(f64::NAN), Number::from(0.0), Number::from(-0.0), Number::from(0)]).collect();
    laws(cx, &nums, "Number", neq)?;
    let tags: Vec<Tag> = (0..5).map(|_| Tag::new(gen::tagname(r))).collect();
    laws(cx, &tags, "Tag", |a, b| bare(a) == bare(b))?;
    Ok(())
}
fn laws<T: PartialEq + PartialOrd + Hash + std::fmt::Debug>(cx: &mut Cx, p: &[T], what: &str, eq: impl Fn(&T, &T) -> bool) -> R {
    let n = p.len();
    let e: Vec<Vec<bool>> = p.iter().map(|a| p.iter().map(|b| a == b).collect()).collect();
    let c: Vec<Vec<Option<Ordering>>> = p.iter().map(|a| p.iter().map(|b| a.partial_cmp(b)).collect()).collect();
    let h: Vec<u64> = p.iter().map(hash1).collect();
    for i in 0..n { cx.seen(&format!("{:?}", p[i]), true); for j in 0..n {
        let inp = format!("{:?} / {:?}", p[i], p[j]);
        ensure!(e[i][j] == eq(&p[i], &p[j]), inp, "{} ==: got {}", what, e[i][j]);
        ensure!((p[i] != p[j]) != e[i][j], inp, "{} != disagrees with ==", what);
        ensure!(e[i][j] == e[j][i], inp, "{} == is not symmetric", what);
        ensure!(!e[i][j] || h[i] == h[j], inp, "{}: equal but hash differently", what);
        ensure!((c[i][j] == Some(Ordering::Equal)) == e[i][j], inp, "{}: order {:?} but == {}", what, c[i][j], e[i][j]);
        ensure!(c[i][j] == c[j][i].map(Ordering::reverse), inp, "{}: order not antisymmetric: {:?} {:?}", what, c[i][j], c[j][i]);
        for k in 0..n {
            ensure!(!(e[i][j] && e[j][k]) || e[i][k], inp, "{} == is not transitive with {:?}", what, p[k]);
            let le = |o: Option<Ordering>| matches!(o, Some(Ordering::Less) | Some(Ordering::Equal));
            ensure!(!(le(c[i][j]) && le(c[j][k])) || le(c[i][k]) && (c[i][k] == Some(Ordering::Equal)) == (e[i][j] && e[j][k]), inp, "{}: order is not transitive with {:?}: {:?} {:?} {:?}", what, p[k], c[i][j], c[j][k], c[i][k]);
        }
    } }
    Ok(())
}

// ------------------------------------------------------------------ C06
/// names the emitted text of libyaml cannot carry (known finding)
pub fn carried(name: &str) -> bool { !name.contains([',', '[', ']', '\0']) && !name.starts_with('!') || name == "!" }
fn c06(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    let names: Vec<String> = (0..4).map(|_| match r.below(4) { 0 | 1 => gen::tagname(r), 2 => { let s = gen::string(r); if s.is_empty() { "!".into() } else { s } } _ => if r.chance(1, 30) { let n = gen::biglen(r, 600); format!("{}{}", "t".repeat(n), r.below(3)) } else { format!("!{}", gen::string(r)) } }).collect();
    let nb = |s: &str| -> String { match s.strip_prefix('!') { None | Some("") => s.to_string(), Some(x) => x.to_string() } };
    for a in &names {
        cx.seen(a, true);
        let t = Tag::new(a.as_str());
        ensure!(t.to_string() == format!("!{}", nb(a)), a.clone(), "displays as {:?}", t.to_string());
        ensure!(format!("{:?}", t) == format!("!{}", nb(a)), a.clone(), "debug prints as {:?}", t);
        for b in &names {
            let u = Tag::new(b.clone()); let inp = format!("{:?} {:?}", a, b);
            ensure!((t == u) == (nb(a) == nb(b)), inp, "== is {}", t == u);
            ensure!((t == *b.as_str()) == (nb(a) == nb(b)) && (t == *b) == (nb(a) == nb(b)), inp, "== with str");
            ensure!(t.cmp(&u) == nb(a).cmp(&nb(b)) && t.partial_cmp(&u) == Some(nb(a).cmp(&nb(b))), inp, "order is {:?}", t.cmp(&u));
            ensure!(t != u || hash1(&t) == hash1(&u), inp, "hashes differ");
        }
    }
    ensure!(catch_unwind(|| Tag::new("")).is_err(), "", "an empty Tag was made");
    // tagged values through text and to_value
    let name = if i < 30 { gen::tagname(r) } else { names[r.below(4)].clone() };
    let payload = gen::value(r, Opts { tags: true, depth: 2, ..FULL });
    let inner_tagged = matches!(payload, Value::Tagged(_));
    let v = Value::Tagged(Box::new(TaggedValue { tag: Tag::new(name.as_str()), value: payload.clone() }));
    let inp = format!("{:?}", v); cx.note(&inp);
    let tv = serde_yaml::to_value(&v);
    ensure!(matches!(&tv, Ok(x) if same(x, &v)), inp, "to_value gives {:?}", tv);
    let text = serde_yaml::to_string(&v);
    if inner_tagged { ensure!(text.is_err(), inp, "a tag directly inside a tag was written as {:?}", text); }
    else if carried(&nb(&name)) {
        let w = if r.chance(1, 3) { Value::Sequence(vec![v.clone(), 1.into(), v.clone()]) } else if r.chance(1, 3) { let mut m = Mapping::new(); m.insert(v.clone(), v.clone()); m.insert("k".into(), v.clone()); Value::Mapping(m) } else { v.clone() };
        let text = match serde_yaml::to_string(&w) { Ok(t) => t, Err(e) => return fail(format!("to_string failed: {}", e), inp) };
        let b = read::<Value>(&text);
        ensure!(matches!(&b, Ok(x) if same(x, &w)), format!("{:?} -> {:?}", w, text), "reads back as {:?}", b);
        let f = serde_yaml::from_value::<Value>(w.clone()); ensure!(matches!(&f, Ok(x) if same(x, &w)), format!("{:?}", w), "from_value gives {:?}", f.map_err(|e| e.to_string()));
        let tv = read::<TaggedValue>(&out(&v)?); ensure!(matches!(&tv, Ok(x) if bare(&x.tag) == nb(&name) && same(&x.value, &payload)), text, "as TaggedValue: {:?}", tv);
        let tv = serde_yaml::from_value::<TaggedValue>(v.clone()); ensure!(matches!(&tv, Ok(x) if bare(&x.tag) == nb(&name) && same(&x.value, &payload)), text, "as TaggedValue from_value: {:?}", tv.map_err(|e| e.to_string()));
    }
    // handwritten tags
    let nm = gen::tagname(r); let b = nb(&nm);
    if b != "!" {
        let n = yamlgen::of_value(&payload, r); if n.tag.is_none() {
            let t = W::doc(&n.clone().tagged(&yamlgen::tag_text(&b)));
            let g = read::<Value>(&t); ensure!(matches!(&g, Ok(Value::Tagged(x)) if bare(&x.tag) == b && same(&x.value, &payload)), t, "reads as {:?}", g);
        }
    }
    // enum variants
    use crate::dynty::{Ty, VTy, Val, model, nested_tag, VARIANTS};
    let t = Ty::Enum(0, vec![VTy::Unit, VTy::Newtype(crate::dynty::ty(r, 1, true)), VTy::Tuple(vec![crate::dynty::ty(r, 1, true), Ty::Str]), VTy::Struct(1, vec![crate::dynty::ty(r, 1, true), Ty::Bool])]);
    let t = if r.chance(1, 4) { Ty::Seq(Box::new(t)) } else if r.chance(1, 4) { Ty::Map(Box::new(Ty::Str), Box::new(t)) } else { t };
    let v = crate::dynty::val(r, &t);
    let inp = format!("{:?}", v); cx.note(&inp); let _ = VARIANTS;
    let text = serde_yaml::to_string(&v);
    if nested_tag(&v, false) { ensure!(text.is_err(), inp, "a nested enum was written as {:?}", text); return Ok(()); }
    let text = match text { Ok(t) => t, Err(e) => return if bad_text(&v) { Ok(()) } else { fail(format!("to_string failed: {}", e), inp) } };
    let b = crate::p_scalar::read_ty(&text, &t);
    if !ambiguous(&v, &t) { ensure!(b.as_ref() == Ok(&v), format!("{} -> {:?}", inp, text), "reads back as {:?}", b); }
    if let Some(m) = model(&v) { if !crate::dynty::any_val(&v, &|v| matches!(v, Val::F32(_))) { let b = read::<Value>(&text); ensure!(matches!(&b, Ok(x) if same(x, &m)), text, "as Value: {:?}, expected {:?}", b, m);
        let tv = serde_yaml::to_value(&v); ensure!(matches!(&tv, Ok(x) if same(x, &m)), inp, "to_value: {:?}, expected {:?}", tv, m); } }
    Ok(())
}
/// the text serializer may refuse the value (bytes; tags libyaml rejects)
pub fn bad_text(v: &crate::dynty::Val) -> bool {
    use crate::dynty::{any_val, Val};
    any_val(v, &|v| match v { Val::Bytes(_) => true, Val::Any(v) => bad_tag(v), _ => false })
}
pub fn bad_tag(v: &Value) -> bool {
    match v { Value::Tagged(t) => !carried(&bare(&t.tag)) || bad_tag(&t.value), Value::Sequence(s) => s.iter().any(bad_tag), Value::Mapping(m) => m.iter().any(|(k, v)| bad_tag(k) || bad_tag(v)), _ => false }
}
/// values whose type cannot tell them apart in YAML: Some(None), Some(()), Option of something null-like
pub fn ambiguous(v: &crate::dynty::Val, t: &crate::dynty::Ty) -> bool {
    use crate::dynty::{any_val, Val, VVal};
    let _ = t;
    fn nullish(v: &Val) -> bool { match v { Val::None | Val::Unit | Val::UnitStruct | Val::Ignored => true, Val::Any(Value::Null) => true, Val::Some(v) | Val::Newtype(v) => nullish(v), _ => false } }
    any_val(v, &|v| match v { Val::Some(x) => nullish(x), Val::Ignored => true, Val::Bytes(_) => true, Val::Enum(_, _, x) => matches!(&**x, VVal::Newtype(v) if unit_variant_inside(v)), _ => false })
}
fn unit_variant_inside(v: &crate::dynty::Val) -> bool {
    use crate::dynty::{Val, VVal};
    match v { Val::Enum(_, _, x) => matches!(&**x, VVal::Unit), Val::Some(v) | Val::Newtype(v) => unit_variant_inside(v), _ => false }
}

// ------------------------------------------------------------------ C07
fn c07(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    let mut m = Mapping::new();
    let mut v: Vec<(Value, Value)> = vec![];
    let kpool: Vec<Value> = {
        let mut p: Vec<Value> = vec!["a".into(), "b".into(), "1".into(), 1.into(), 1.0.into(), Value::Null, "null".into(), "".into(), true.into(), "true".into(), f64::NAN.into(), 0.0.into(), (-0.0).into(), Value::Sequence(vec!["a".into()]), Value::Tagged(Box::new(TaggedValue { tag: Tag::new("a"), value: "a".into() })), Value::Tagged(Box::new(TaggedValue { tag: Tag::new("!a"), value: "a".into() }))];
        for _ in 0..3 { let st = r.chance(1, 2); let x = gen::value(r, Opts { depth: 2, strings: st, ..FULL }); p.push(permute(&x, r)); p.push(x); }
        p
    };
    let steps = r.range(1, if i < 16 { 12 } else { 40 });
    let mut log = String::new();
    let mut kpool = kpool;
    if i >= 16 && i % 20 == 9 {
        let n = gen::biglen(r, 200); let ks = gen::keys(r, n);
        let fill = r.chance(3, 4);
        for (j, k) in ks.iter().enumerate() { if fill && j + 5 < n { m.insert(k.clone(), Value::from(j as u64)); v.push((k.clone(), Value::from(j as u64))); } }
        if r.chance(3, 4) { kpool = ks.clone(); } else { kpool.extend(ks.clone()); }
        log = format!("{} entries of the {} keys {:?}..; ", v.len(), n, &ks[..2]);
    }
    for s in 0..steps {
        let k = r.pick(&kpool).clone();
        let pos = v.iter().position(|(l, _)| meq(&k, l));
        let val: Value = (s as u64).into();
        let op = r.below(24);
        log.push_str(&format!("{} {:?}; ", op, k));
        let inp = log.clone();
        cx.note(&inp);
        // a string key is addressed at random as &str, String, &String, Value or &Value
        let how = r.below(5);
        macro_rules! by { ($f:ident) => {{ match &k { Value::String(t) if how < 3 => match how { 0 => m.$f(t.as_str()), 1 => m.$f(t.clone()), _ => m.$f(&t) }, k if how == 3 => m.$f(k), k => m.$f(k.clone()) } }} }
        match op {
            0..=4 => { let o = m.insert(k.clone(), val.clone()); let w = match pos { Some(p) => Some(std::mem::replace(&mut v[p].1, val)), None => { v.push((k.clone(), val)); None } }; ensure!(o == w, inp, "insert returned {:?}, expected {:?}", o, w); }
            5 | 6 => { let g = by!(get); ensure!(g == pos.map(|p| &v[p].1), inp, "get returned {:?}", g); }
            7 => { let g = by!(contains_key); ensure!(g == pos.is_some(), inp, "contains_key returned {:?}", g); }
            8 => { let g = by!(get_mut); ensure!(g.is_some() == pos.is_some(), inp, "get_mut"); if let (Some(g), Some(p)) = (g, pos) { ensure!(*g == v[p].1, inp, "get_mut gives {:?}", g); *g = val.clone(); v[p].1 = val; } }
            9 => { let g = by!(remove); let w = pos.map(|p| v.swap_remove(p).1); ensure!(g == w, inp, "remove returned {:?}, expected {:?}", g, w); }
            10 => { let g = by!(remove_entry); let w = pos.map(|p| v.swap_remove(p)); ensure!(g == w, inp, "remove_entry returned {:?}, expected {:?}", g, w); }
            11 => { let g = by!(swap_remove); let w = pos.map(|p| v.swap_remove(p).1); ensure!(g == w, inp, "swap_remove returned {:?}, expected {:?}", g, w); }
            12 => { let g = by!(swap_remove_entry); let w = pos.map(|p| v.swap_remove(p)); ensure!(g == w, inp, "swap_remove_entry returned {:?}, expected {:?}", g, w); }
            13 => { let g = by!(shift_remove); let w = pos.map(|p| v.remove(p).1); ensure!(g == w, inp, "shift_remove returned {:?}, expected {:?}", g, w); }
            14 => { let g = by!(shift_remove_entry); let w = pos.map(|p| v.remove(p)); ensure!(g == w, inp, "shift_remove_entry returned {:?}, expected {:?}", g, w); }
            15..=18 => {
                let e = m.entry(k.clone());
                ensure!(meq(e.key(), &k), inp, "entry key {:?}", e.key());
                ensure!(matches!(e, Entry::Occupied(_)) == pos.is_some(), inp, "entry occupancy");
                match r.below(6) {
                    0 => { let g = e.or_insert(val.clone()); match pos { Some(p) => { ensure!(*g == v[p].1, inp, "or_insert"); *g = 77.into(); v[p].1 = 77.into(); } None => { ensure!(*g == val, inp, "or_insert"); v.push((k.clone(), val)); } } }
                    1 => { let mut called = false; let g = e.or_insert_with(|| { called = true; val.clone() }).clone(); ensure!(called == pos.is_none(), inp, "or_insert_with called {}", called); match pos { Some(p) => ensure!(g == v[p].1, inp, "or_insert_with"), None => { ensure!(g == val, inp, "or_insert_with"); v.push((k.clone(), val)); } } }
                    2 => { let mut n = 0; let e = e.and_modify(|x| { n += 1; *x = 88.into(); }); ensure!(n == pos.is_some() as i32, inp, "and_modify ran {} times", n); if let Some(p) = pos { v[p].1 = 88.into(); } ensure!(matches!(e, Entry::Occupied(_)) == pos.is_some(), inp, "and_modify changed occupancy"); if r.chance(1, 2) { e.or_insert(val.clone()); if pos.is_none() { v.push((k.clone(), val)); } } }
                    _ => match (e, pos) {
                        (Entry::Occupied(mut e), Some(p)) => { ensure!(*e.get() == v[p].1 && meq(e.key(), &v[p].0), inp, "occupied get"); match r.below(5) {
                            0 => { let o = e.insert(val.clone()); ensure!(o == v[p].1, inp, "occupied insert"); v[p].1 = val; }
                            1 => { let o = e.remove(); ensure!(o == v.swap_remove(p).1, inp, "occupied remove"); }
                            2 => { let o = e.remove_entry(); ensure!(o == v.swap_remove(p), inp, "occupied remove_entry"); }
                            3 => { *e.get_mut() = val.clone(); v[p].1 = val; }
                            _ => { *e.into_mut() = val.clone(); v[p].1 = val; } } }
                        (Entry::Vacant(e), None) => { ensure!(meq(e.key(), &k), inp, "vacant key"); if r.chance(1, 2) { let g = e.insert(val.clone()); ensure!(*g == val, inp, "vacant insert"); v.push((k.clone(), val)); } else { let q = e.into_key(); ensure!(meq(&q, &k), inp, "into_key"); } }
                        _ => {}
                    },
                }
            }
            19 => { let n = r.below(4); m.retain(|_, x| { let keep = hash1(x) % 4 != n as u64; *x = Value::Sequence(vec![x.clone()]); keep }); v.retain(|(_, x)| hash1(x) % 4 != n as u64); for e in &mut v { e.1 = Value::Sequence(vec![e.1.clone()]); } }
            20 => { for (k, x) in m.iter_mut() { let _ = k; if r.chance(1, 9) { *x = Value::Null; } } v = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect(); for x in m.values_mut() { *x = Value::Sequence(vec![x.clone()]); } for e in &mut v { e.1 = Value::Sequence(vec![e.1.clone()]); } for (_, x) in &mut m { *x = Value::Sequence(vec![x.clone()]); } for e in &mut v { e.1 = Value::Sequence(vec![e.1.clone()]); } }
            21 => { match r.below(5) { 0 => { m.reserve(r.below(20)); ensure!(m.capacity() >= m.len(), inp, "capacity"); } 1 => m.shrink_to_fit(), 2 => { m = m.clone(); } 3 => { m = m.into_iter().collect(); } _ => { if r.chance(1, 4) { m.clear(); v.clear(); ensure!(m.is_empty(), inp, "clear"); } else { let mut n = Mapping::with_capacity(r.below(4)); n.extend(m); m = n; } } } }
            22 => { let w = pos.map(|p| v[p].1.clone()); let g = catch_unwind(AssertUnwindSafe(|| match &k { Value::String(s) if how < 3 => m[s.as_str()].clone(), k => m[k].clone() })); ensure!(g.is_ok() == w.is_some() && (g.is_err() || g.ok() == w), inp, "Mapping[key]"); }
            _ => { if let Some(p) = pos { match &k { Value::String(s) if how < 3 => m[s.as_str()] = val.clone(), k => m[k] = val.clone() } v[p].1 = val; } else { let g = catch_unwind(AssertUnwindSafe(|| { m[&k] = Value::Null; })); ensure!(g.is_err(), inp, "IndexMut of a missing key did not panic"); } }
        }
        let inp = log.clone();
        ensure!(m.len() == v.len() && m.is_empty() == v.is_empty(), inp, "len {} expected {}", m.len(), v.len());
        let eqv = |a: Vec<(&Value, &Value)>| a.len() == v.len() && a.iter().zip(&v).all(|((k, x), (l, y))| meq(k, l) && meq(x, y));
        ensure!(eqv(m.iter().collect()), inp, "contents {:?}, expected {:?}", m, v);
        ensure!(eqv((&m).into_iter().collect()), inp, "into_iter by reference");
        ensure!(m.iter().len() == v.len() && m.iter().size_hint() == (v.len(), Some(v.len())), inp, "iter len");
        ensure!(eqv(m.keys().zip(m.values()).collect()), inp, "keys/values");
        if r.chance(1, 8) { let (a, b): (Vec<Value>, Vec<Value>) = (m.clone().into_keys().collect(), m.clone().into_values().collect()); ensure!(eqv(a.iter().zip(b.iter()).collect()), inp, "into_keys/into_values"); let c: Vec<(Value, Value)> = m.clone().into_iter().collect(); ensure!(eqv(c.iter().map(|(a, b)| (a, b)).collect()), inp, "into_iter"); }
    }
    cx.seen(&log, v.len() > 1);
    // string lookups address exactly the string entry
    for (k, x) in &v { if let Value::String(s) = k { ensure!(m.get(s.as_str()) == Some(x) && m.get(s) == Some(x) && m.get(k) == Some(x) && m.contains_key(s.as_str()), log, "lookup by string"); } }
    for s in ["a", "b", "1", "null", "true", "zz", ""] { let w = v.iter().find(|(k, _)| matches!(k, Value::String(t) if t == s)).map(|e| &e.1); ensure!(m.get(s) == w && m.get(s.to_string()) == w && m.get(Value::String(s.into())) == w, log, "lookup of {:?}", s); }
    Ok(())
}

// ------------------------------------------------------------------ C08
#[derive(Clone, Debug)] enum Ix { U(usize), S(String), V(Value) }
fn key_of(i: &Ix) -> Value { match i { Ix::U(n) => (*n as u64).into(), Ix::S(s) => s.clone().into(), Ix::V(v) => v.clone() } }
fn look<'a>(v: &'a Value, i: &Ix) -> Option<&'a Value> {
    match v { Value::Tagged(t) => look(&t.value, i), Value::Mapping(m) => { let k = key_of(i); m.iter().find(|(l, _)| meq(l, &k)).map(|e| e.1) }, Value::Sequence(s) => match i { Ix::U(n) => if *n < s.len() { Some(&s[*n]) } else { None }, _ => None }, _ => None }
}
fn rebuild(v: &Value, i: &Ix, new: &Value, insert: bool, top: bool) -> Option<Value> {
    match v {
        Value::Tagged(t) => rebuild(&t.value, i, new, insert, false).map(|x| Value::Tagged(Box::new(TaggedValue { tag: t.tag.clone(), value: x }))),
        Value::Mapping(m) => { let k = key_of(i); let mut e: Vec<(Value, Value)> = m.clone().into_iter().collect(); match e.iter().position(|(l, _)| meq(l, &k)) { Some(p) => e[p].1 = new.clone(), None if insert => e.push((k, new.clone())), None => return None } Some(Value::Mapping(e.into_iter().collect())) }
        Value::Sequence(s) => match i { Ix::U(n) if *n < s.len() => { let mut s = s.clone(); s[*n] = new.clone(); Some(Value::Sequence(s)) } _ => None },
        Value::Null if insert && top && !matches!(i, Ix::U(_)) => { let mut m = Mapping::new(); m.insert(key_of(i), new.clone()); Some(Value::Mapping(m)) }
        _ => None,
    }
}
fn c08(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    let o = Opts { nested_tags: true, depth: if i < 16 { 1 } else { 3 }, strings: r.chance(1, 3), ..FULL };
    let mut v = gen::value(r, o);
    if r.chance(1, 2) { let mut m = Mapping::new(); for _ in 0..r.below(5) { let k = match r.below(4) { 0 => (r.below(4) as u64).into(), 1 => gen::word(r).into(), 2 => r.below(4).to_string().into(), _ => gen::value(r, o) }; m.insert(k, gen::value(r, Opts { depth: 1, ..o })); } v = Value::Mapping(m); }
    let big = i >= 16 && i % 25 == 3;
    if big { let n = gen::biglen(r, 150); v = if r.chance(2, 3) { Value::Mapping(gen::big_map(r, n)) } else { Value::Sequence(gen::big_seq(r, n)) }; }
    for _ in 0..r.below(3) { if r.chance(1, 2) { v = Value::Tagged(Box::new(TaggedValue { tag: Tag::new(gen::tagname(r)), value: v })); } }
    for _ in 0..4 {
        let keys: Vec<Value> = { let mut u = &v; while let Value::Tagged(t) = u { u = &t.value; } match u { Value::Mapping(m) => m.keys().cloned().collect(), Value::Sequence(s) => (0..s.len() as u64).map(Value::from).collect(), _ => vec![] } };
        let ix = match r.below(6) {
            0 | 1 if big && r.chance(1, 4) => Ix::U(*r.pick(&[keys.len(), keys.len().wrapping_sub(1), usize::MAX, usize::MAX / 2 + 1, 1 << 32, (1 << 32) + 1])),
            0 => Ix::U(r.below(5)), 1 => Ix::S(gen::word(r)), 2 => Ix::V(gen::value(r, Opts { depth: 1, ..o })), 3 => Ix::S(r.below(4).to_string()),
            _ if !keys.is_empty() => { let k = r.pick(&keys).clone(); match (&k, r.below(3)) { (Value::String(s), 0 | 1) => Ix::S(s.clone()), (Value::Number(n), 0 | 1) if n.is_u64() => Ix::U(n.as_u64().unwrap() as usize), _ => Ix::V(permute(&k, r)) } }
            _ => Ix::U(r.below(2)),
        };
        let inp = format!("{:?} [{:?}]", v, ix); cx.note(&inp); cx.seen(&inp, true);
        let w = look(&v, &ix).cloned();
        let how = r.below(3);
        macro_rules! at { ($f:expr) => { match &ix { Ix::U(n) => if how == 0 { $f(&n) } else { $f(n) }, Ix::S(s) => match how { 0 => $f(&s.as_str()), 1 => $f(s), _ => $f(&s.clone()) }, Ix::V(k) => $f(k) } } }
        fn get<I: serde_yaml::value::Index>(v: &Value, i: I) -> Option<Value> { v.get(i).cloned() }
        let g = match &ix { Ix::U(n) => get(&v, *n), Ix::S(s) => match how { 0 => get(&v, s.as_str()), 1 => get(&v, s.clone()), _ => get(&v, s) }, Ix::V(k) => get(&v, k) };
        ensure!(opt_same(&g, &w), inp, "get gives {:?}, expected {:?}", g, w);
        let rd = match &ix { Ix::U(n) => v[*n].clone(), Ix::S(s) => if how == 0 { v[s.as_str()].clone() } else { v[s].clone() }, Ix::V(k) => v[k].clone() };
        ensure!(same(&rd, w.as_ref().unwrap_or(&Value::Null)), inp, "[] gives {:?}, expected {:?}", rd, w);
        // get_mut
        let new = gen::value(r, Opts { depth: 1, strings: false, ..FULL });
        let mut c = v.clone();
        let gm = match &ix { Ix::U(n) => c.get_mut(*n), Ix::S(s) => if how == 0 { c.get_mut(s.as_str()) } else { c.get_mut(s.clone()) }, Ix::V(k) => c.get_mut(k) };
        ensure!(gm.is_some() == w.is_some(), inp, "get_mut gives {:?}", gm);
        if let Some(p) = gm { ensure!(same(p, w.as_ref().unwrap()), inp, "get_mut gives {:?}", p); *p = new.clone(); }
        let want = rebuild(&v, &ix, &new, false, true).unwrap_or_else(|| v.clone());
        ensure!(same(&c, &want), inp, "after writing through get_mut: {:?}, expected {:?}", c, want);
        // []=
        let mut c = v.clone();
        let res = catch_unwind(AssertUnwindSafe(|| { match &ix { Ix::U(n) => c[*n] = new.clone(), Ix::S(s) => match how { 0 => c[s.as_str()] = new.clone(), 1 => c[s.clone()] = new.clone(), _ => c[s] = new.clone() }, Ix::V(k) => c[k] = new.clone() } }));
        match rebuild(&v, &ix, &new, true, true) {
            Some(w) => { ensure!(res.is_ok(), inp, "[]= panicked"); ensure!(same(&c, &w), inp, "after []=: {:?}, expected {:?}", c, w); v = c; }
            None => { ensure!(res.is_err(), inp, "[]= did not panic: {:?}", c); ensure!(same(&c, &v), inp, "a panicking []= changed the value to {:?}", c); }
        }
        // []= read back without a write leaves Null at a new key
        let mut c = v.clone();
        let ix2 = Ix::S("fresh".into());
        if look(&v, &ix2).is_none() { if let Some(w) = rebuild(&v, &ix2, &Value::Null, true, true) { let _ = &mut c["fresh"]; ensure!(same(&c, &w), inp, "&mut v[\"fresh\"] gives {:?}", c); } }
    }
    Ok(())
}
fn opt_same(a: &Option<Value>, b: &Option<Value>) -> bool { match (a, b) { (Some(a), Some(b)) => same(a, b), (None, None) => true, _ => false } }

// ------------------------------------------------------------------ C09
fn merged(v: &Value) -> Result<Value, ()> {
    Ok(match v {
        Value::Mapping(m) => {
            let mut out: Vec<(Value, Value)> = vec![];
            for (k, x) in m { if !matches!(k, Value::String(s) if s == "<<") { out.push((k.clone(), merged(x)?)); } }
            if let Some((_, x)) = m.iter().find(|(k, _)| matches!(k, Value::String(s) if s == "<<")) {
                let list: Vec<&Value> = match x { Value::Mapping(_) => vec![x], Value::Sequence(s) => s.iter().collect(), _ => return Err(()) };
                for y in list { match merged(y)? { Value::Mapping(y) => for (k, x) in y { if !out.iter().any(|(l, _)| meq(l, &k)) { out.push((k, x)); } }, _ => return Err(()) } }
            }
            Value::Mapping(out.into_iter().collect())
        }
        Value::Sequence(s) => Value::Sequence(s.iter().map(merged).collect::<Result<_, _>>()?),
        Value::Tagged(t) => Value::Tagged(Box::new(TaggedValue { tag: t.tag.clone(), value: merged(&t.value)? })),
        v => v.clone(),
    })
}
fn merge_tree(r: &mut Rng, d: usize, bad: bool) -> Value {
    if d == 0 { return gen::leaf(r, Opts { strings: false, ..FULL }); }
    match r.below(8) {
        0 => { let st = r.chance(1, 2); gen::leaf(r, Opts { strings: st, ..FULL }) },
        1 => Value::Sequence((0..r.below(4)).map(|_| merge_tree(r, d - 1, bad)).collect()),
        2 => Value::Tagged(Box::new(TaggedValue { tag: Tag::new(gen::tagname(r)), value: merge_tree(r, d - 1, bad) })),
        _ => mmap(r, d, bad),
    }
}
fn mmap(r: &mut Rng, d: usize, bad: bool) -> Value {
    let mut m = Mapping::new();
    for _ in 0..r.below(4) { let k = if r.chance(1, 8) { merge_tree(r, d.saturating_sub(1), bad) } else { gen::word(r).into() }; m.insert(k, merge_tree(r, d.saturating_sub(1), bad)); }
    if r.chance(1, 2) {
        let x = if bad && r.chance(1, 4) { merge_tree(r, d.saturating_sub(1), bad) } else if r.chance(1, 2) { mmap(r, d.saturating_sub(1), bad) } else { Value::Sequence((0..r.below(4)).map(|_| if bad && r.chance(1, 8) { merge_tree(r, d.saturating_sub(1), bad) } else { mmap(r, d.saturating_sub(1), bad) }).collect()) };
        m.insert("<<".into(), x);
    }
    if r.chance(1, 6) { for _ in 0..2 { m.insert(gen::word(r).into(), merge_tree(r, d.saturating_sub(1), bad)); } }
    Value::Mapping(m)
}
fn c09(cx: &mut Cx, _i: u64, r: &mut Rng) -> R {
    let bad = r.chance(1, 4);
    let d = r.range(1, 4);
    let v = if r.chance(1, 30) {
        // many mappings merged into one, and many keys
        let n = gen::biglen(r, 60); let range = r.range(3, 150);
        let mut one = |r: &mut Rng, w: usize| { let mut m = Mapping::new(); let h = if r.chance(1, 6) { 60 } else { 6 }; for _ in 0..r.below(h) { m.insert(format!("k{}", r.below(range)).into(), ((w * 1000 + r.below(9)) as u64).into()); } m };
        let list: Vec<Value> = (0..n).map(|w| { let mut m = one(r, w); if r.chance(1, 10) { m.insert("<<".into(), Value::Mapping(one(r, w + 500))); } if bad && r.chance(1, 60) { Value::from(1) } else { Value::Mapping(m) } }).collect();
        let mut m = one(r, 900); let x = if r.chance(1, 5) { list.into_iter().find(|x| x.is_mapping()).unwrap_or(Value::Null) } else { Value::Sequence(list) };
        m.insert("<<".into(), x); m.extend(one(r, 901));
        if r.chance(1, 2) { Value::Sequence(vec![Value::Mapping(m)]) } else { Value::Mapping(m) }
    } else if r.chance(1, 8) { gen::value(r, FULL) } else { merge_tree(r, d, bad) };
    let inp = format!("{:?}", v); cx.note(&inp);
    let mut c = v.clone();
    let res = c.apply_merge();
    let w = merged(&v);
    cx.seen(&inp, !matches!(&w, Ok(w) if same(w, &v)));
    match (&res, &w) {
        (Ok(()), Ok(w)) => {
            ensure!(meq(&c, w), inp, "apply_merge gives {:?}, expected {:?}", c, w);
            let mut d = c.clone(); ensure!(d.apply_merge().is_ok() && same(&d, &c), inp, "a second apply_merge changes the result");
        }
        (Err(_), Err(())) => {}
        (a, w) => return fail(format!("apply_merge returned {:?}, expected {:?}", a.as_ref().map_err(|e| e.to_string()), w), inp),
    }
    Ok(())
}

// ------------------------------------------------------------------ C22
fn c22(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    let o = Opts { depth: 2, strings: r.chance(1, 2), ..FULL };
    let (u, s) = if i < 256 { (i, i as i64 - 128) } else { (gen::u64v(r), gen::i64v(r)) };
    let (f, g) = (gen::float(r), if r.chance(1, 2) { gen::float(r) as f32 } else { f32::from_bits(r.next() as u32) });
    let st = gen::string(r); let b = r.chance(1, 2);
    macro_rules! from { ($x:expr, $pat:pat => $c:expr) => {{ let x = $x; let v = Value::from(x.clone()); match &v { $pat if $c => {} _ => return fail(format!("Value::from gives {:?}", v), format!("{:?}", x)) } }} }
    macro_rules! ints { ($($t:ty),*; $src:expr) => { $( { let x = $src as $t; let v = Value::from(x); let want = x as i128; match &v { Value::Number(n) => ensure!(n.as_u64() == u64::try_from(want).ok() && n.as_i64() == i64::try_from(want).ok() && !n.is_f64(), format!("{:?}", x), "Value::from({}) gives {:?}", stringify!($t), v), _ => return fail(format!("Value::from gives {:?}", v), format!("{:?}", x)) } ensure!(v == x, format!("{:?}", x), "Value::from(x) != x"); } )* } }
    ints!(u8, u16, u32, u64, usize; u); ints!(i8, i16, i32, i64, isize; s);
    from!(f, Value::Number(n) => n.is_f64() && gen::same_num(n, &Number::from(f)) && (n.as_f64().unwrap().to_bits() == f.to_bits() || f.is_nan()));
    from!(g, Value::Number(n) => n.is_f64() && (n.as_f64() == Some(g as f64) || g.is_nan() && n.is_nan()));
    from!(b, Value::Bool(x) => *x == b);
    from!(st.clone(), Value::String(x) => *x == st); from!(st.as_str(), Value::String(x) => *x == st); from!(std::borrow::Cow::from(st.clone()), Value::String(x) => *x == st);
    let m = match gen::value(r, o) { Value::Mapping(m) => m, x => [(x, Value::from(1))].into_iter().collect() };
    from!(m.clone(), Value::Mapping(x) => same(&Value::Mapping(x.clone()), &Value::Mapping(m.clone())));
    let sq: Vec<Value> = if r.chance(1, 60) { let n = gen::biglen(r, 300); gen::big_seq(r, n) } else { (0..r.below(4)).map(|_| gen::value(r, o)).collect() };
    let sqs = Value::Sequence(sq.clone());
    ensure!(same(&Value::from(sq.clone()), &sqs) && same(&Value::from(&sq[..]), &sqs) && same(&sq.iter().cloned().collect::<Value>(), &sqs), format!("{:?}", sq), "sequence conversions");
    let us = vec![u, 1, 2]; ensure!(same(&Value::from(us.clone()), &Value::Sequence(us.iter().map(|x| Value::from(*x)).collect())), format!("{:?}", us), "Vec<u64>");
    // kind tests
    let mut v = match r.below(9) { 0 => Value::Null, 1 => b.into(), 2 => u.into(), 3 => s.into(), 4 => f.into(), 5 => st.clone().into(), 6 => sqs, 7 => Value::Mapping(m), _ => gen::value(r, o) };
    let mut bare = v.clone(); while let Value::Tagged(t) = bare { bare = t.value; }
    for _ in 0..r.below(4) { v = Value::Tagged(Box::new(TaggedValue { tag: Tag::new(gen::tagname(r)), value: v })); }
    let inp = format!("{:?}", v); cx.seen(&inp, true); cx.note(&inp);
    ensure!(v.is_null() == matches!(bare, Value::Null) && v.as_null() == (if let Value::Null = bare { Some(()) } else { None }), inp, "null: {} {:?}", v.is_null(), v.as_null());
    ensure!(v.is_bool() == matches!(bare, Value::Bool(_)) && v.as_bool() == (if let Value::Bool(b) = bare { Some(b) } else { None }), inp, "bool");
    ensure!(v.is_string() == matches!(bare, Value::String(_)) && v.as_str() == (if let Value::String(b) = &bare { Some(b.as_str()) } else { None }), inp, "string");
    ensure!(v.is_sequence() == matches!(bare, Value::Sequence(_)) && v.as_sequence() == (if let Value::Sequence(b) = &bare { Some(b) } else { None }), inp, "sequence");
    ensure!(v.is_mapping() == matches!(bare, Value::Mapping(_)) && v.as_mapping() == (if let Value::Mapping(b) = &bare { Some(b) } else { None }), inp, "mapping");
    ensure!(v.is_number() == matches!(bare, Value::Number(_)), inp, "number");
    let n = if let Value::Number(n) = &bare { Some(n.clone()) } else { None };
    ensure!(v.is_u64() == n.as_ref().map_or(false, |n| n.is_u64()) && v.is_i64() == n.as_ref().map_or(false, |n| n.is_i64()) && v.is_f64() == n.as_ref().map_or(false, |n| n.is_f64()), inp, "numeric kinds");
    ensure!(v.as_u64() == n.as_ref().and_then(|n| n.as_u64()) && v.as_i64() == n.as_ref().and_then(|n| n.as_i64()), inp, "numeric accessors");
    ensure!(match (v.as_f64(), n.as_ref().and_then(|n| n.as_f64())) { (Some(a), Some(b)) => a == b || a.is_nan() && b.is_nan(), (None, None) => true, _ => false }, inp, "as_f64");
    let mut c = v.clone(); let mut cb = bare.clone();
    match (c.as_sequence_mut(), &mut cb) { (Some(a), Value::Sequence(b)) => { ensure!(a == b, inp, "as_sequence_mut"); a.push(5.into()); let mut u = &c; while let Value::Tagged(t) = u { u = &t.value; } ensure!(matches!(u, Value::Sequence(x) if x.len() == b.len() + 1), inp, "as_sequence_mut writes elsewhere"); } (None, Value::Sequence(_)) | (Some(_), _) => return fail("as_sequence_mut", inp), _ => {} }
    let mut c = v.clone();
    match (c.as_mapping_mut(), &mut cb) { (Some(a), Value::Mapping(b)) => { ensure!(a == b, inp, "as_mapping_mut"); a.insert("zzz".into(), 5.into()); ensure!(c.get("zzz") == Some(&5.into()), inp, "as_mapping_mut writes elsewhere"); } (None, Value::Mapping(_)) | (Some(_), _) => return fail("as_mapping_mut", inp), _ => {} }
    // comparisons
    let iv: Option<i128> = n.as_ref().filter(|n| !n.is_f64()).map(|n| n.as_u64().map(|x| x as i128).unwrap_or_else(|| n.as_i64().unwrap() as i128));
    macro_rules! cmp { ($($t:ty),*) => { $( for x in [u as $t, s as $t, (u as $t).wrapping_add(1), iv.unwrap_or(0) as $t] { let want = iv == Some(x as i128); let mut c = v.clone(); ensure!((v == x) == want && (&v == x) == want && (&mut c == x) == want, inp, "== {}{} is {}, expected {}", x, stringify!($t), v == x, want); } )* } }
    cmp!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
    let nf = n.as_ref().and_then(|n| n.as_f64());
    for x in [f, u as f64, nf.unwrap_or(1.5)] { let want = nf.map_or(false, |y| y == x); let mut c = v.clone(); ensure!((v == x) == want && (&v == x) == want && (&mut c == x) == want, inp, "== {:?} is {}", x, v == x); }
    for x in [g, nf.unwrap_or(1.5) as f32] { let want = nf.map_or(false, |y| y == x as f64); let mut c = v.clone(); ensure!((v == x) == want && (&v == x) == want && (&mut c == x) == want, inp, "== {:?}f32 is {}", x, v == x); }
    for x in [true, false] { ensure!((v == x) == matches!(bare, Value::Bool(b) if b == x), inp, "== {}", x); }
    for x in [st.clone(), gen::word(r), if let Value::String(s) = &bare { s.clone() } else { "null".into() }] { let want = matches!(&bare, Value::String(b) if *b == x); ensure!((v == x) == want && (v == *x.as_str()) == want && (v == x.as_str()) == want, inp, "== {:?}", x); }
    let _ = Value::default();
    ensure!(Value::default() == Value::Null, "", "default is not Null");
    Ok(())
}
