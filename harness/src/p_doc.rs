//! C10 C11 C12 C13 C15 C16 C18 C21
use crate::dynty::{self, any_val, Seed, Ty, VTy, VVal, Val, FIELDS, VARIANTS};
use crate::ensure;
use crate::fw::*;
use crate::gen::{self, same};
use crate::p_scalar::{read, read_ty};
use crate::p_value::{ambiguous, bad_tag, bad_text};
use crate::yamlgen::{self, alias, map, meaning, of_val, of_value, plain, seq, str_node, Kind, Node, Style, W};
use serde::de::{self, DeserializeSeed, Deserializer as _, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::Deserialize;
use serde_yaml::{Deserializer, Value};
use std::collections::HashMap;
use std::fmt;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C10", rule: "random documents with anchors on any node, redefined names, aliases anywhere (keys, tagged payloads, ignored fields), streams; against substitution of the latest earlier anchor", fixed: 300, case: c10, quick: 60_000 },
        Prop { id: "C11", rule: "nestings of depth 120 to 136 through sequences, mappings, keys, newtypes, tags and aliases, wide siblings; alias jumps placed at the exact repetition limit", fixed: 400, case: c11, quick: 1_500 },
        Prop { id: "C12", rule: "typed documents with unknown, shuffled, missing, extra and repeated entries, visitors that stop early, ignored nodes of every kind", fixed: 300, case: c12, quick: 60_000 },
        Prop { id: "C13", rule: "streams of zero to six documents, some ending in a syntax error or unknown anchor, iterated and read as one value", fixed: 300, case: c13, quick: 40_000 },
        Prop { id: "C15", rule: "documents, mutated documents and junk bytes through from_str, from_slice and chunked readers; lent strings checked against the input range", fixed: 300, case: c15, quick: 40_000 },
        Prop { id: "C16", rule: "typed documents with one node damaged: the reported path and location against the writer's own record; location consistency on mutated documents", fixed: 300, case: c16, quick: 60_000 },
        Prop { id: "C18", rule: "random Values requested as random types from the owned Value, from a reference and from text", fixed: 300, case: c18, quick: 80_000 },
        Prop { id: "C21", rule: "junk bytes, mutated documents, every short string over the indicator alphabet, read as Value, as random types, ignored and iterated; errors printed; random Values serialized", fixed: 900, case: c21, quick: 60_000 },
    ]
}
fn vres(a: &Result<Value, String>, b: &Result<Value, String>) -> bool { match (a, b) { (Ok(a), Ok(b)) => same(a, b), (Err(a), Err(b)) => a == b, _ => false } }

// ------------------------------------------------------------------ C10
struct G { names: Vec<String>, budget: usize }
fn anchored_node(r: &mut Rng, g: &mut G, d: usize) -> Node {
    if g.budget > 0 { g.budget -= 1; }
    if !g.names.is_empty() && r.chance(2, 5) { let n = r.pick(&g.names).clone(); return alias(&n); }
    if r.chance(1, 60) { return alias("nowhere"); }
    let mut n = match if d == 0 || g.budget == 0 { 0 } else { r.below(5) } {
        0 | 1 => if r.chance(1, 2) { plain(r.s(&["1", "null", "true", "x", "1.5", "-3", "~", "word", ".nan"])) } else { str_node(&gen::word(r), r, true) },
        _ => plain("x"),
    };
    let name = if r.chance(1, 2) { Some(r.s(&["a", "b", "c", "A1", "x-y", "0"]).to_string()) } else { None };
    if d > 0 && g.budget > 0 && r.chance(3, 5) {
        // an anchor is in force from its node on, also inside it
        let tagged = r.chance(1, 6);
        let self_ref = r.chance(1, 40);
        if self_ref { if let Some(a) = &name { g.names.push(a.clone()); } }
        let k = r.below(4);
        n = if r.chance(1, 2) { seq((0..k).map(|_| anchored_node(r, g, d - 1)).collect()) } else { map((0..k).map(|_| (anchored_node(r, g, d - 1), anchored_node(r, g, d - 1))).collect()) };
        if tagged { n.tag = Some("!t".into()); }
        if r.chance(1, 3) { n.flow = true; }
    } else if r.chance(1, 10) { n.tag = Some(r.s(&["!t", "!!str"]).into()); }
    if let Some(a) = name { if !g.names.contains(&a) { g.names.push(a.clone()); } n.anchor = Some(a); }
    n
}
fn c10(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    if i % 4 == 3 { return c10_typed(cx, r); }
    if i >= 300 && i % 100 == 2 { return c10_many(cx, r); }
    let mut docs = vec![]; let mut wants = vec![];
    for _ in 0..(if r.chance(1, 5) { r.range(2, 3) } else { 1 }) {
        let mut g = G { names: vec![], budget: r.range(3, 14) };
        if r.chance(1, 20) { g.names.push("a".into()); } // an anchor this document does not have (yet)
        let n = r.range(1, 6);
        let items: Vec<Node> = (0..n).map(|_| anchored_node(r, &mut g, 3)).collect();
        let d = if r.chance(1, 4) { map(items.into_iter().enumerate().map(|(i, x)| (plain(&format!("k{}", i)), x)).collect()) } else { seq(items) };
        wants.push(meaning(&d, &mut HashMap::new())); docs.push(d);
    }
    let text = W::stream(&docs); cx.note(&text); cx.seen(&text, text.contains('*'));
    let got: Vec<_> = Deserializer::from_str(&text).map(|d| Value::deserialize(d).map_err(|e| e.to_string())).take(docs.len() + 3).collect();
    for (k, w) in wants.iter().enumerate() {
        // an unknown alias ends the stream
        let g = got.get(k);
        match (g, w) { (Some(Ok(a)), Some(b)) if same(a, b) => {} (Some(Err(_)), None) => {} (None, _) if wants[..k].iter().any(|w| w.is_none()) => {} _ => return fail(format!("document {} reads as {:?}, substitution gives {:?}", k, g, w), text) }
        if w.is_none() { break; }
    }
    if docs.len() == 1 { let g = read::<Value>(&text); ensure!(match (&g, &wants[0]) { (Ok(a), Some(b)) => same(a, b), (Err(_), None) => true, _ => false }, text, "reads as {:?}, substitution gives {:?}", g, wants[0]); }
    Ok(())
}
/// many anchor names at once: each alias finds its own
fn c10_many(cx: &mut Cx, r: &mut Rng) -> R {
    let hi = if r.chance(1, 4) { 4000 } else { 600 }; let n = gen::biglen(r, hi);
    let style = r.below(8); let base = r.below(10_000);
    let letters: Vec<char> = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_".chars().collect();
    let mut names: Vec<String> = (0..n).map(|i| match style {
        0 => format!("a{}", i), 1 => format!("{}", i), 2 => format!("{:08}", base + i), 3 => format!("{}{}", "same-long-prefix".repeat(4), i), 4 => format!("{}{}", i, "same-long-suffix".repeat(4)),
        5 => { let mut k = i + 64; let mut s = String::new(); while k > 0 { s.push(letters[k % 64]); k /= 64; } s }
        6 => { let b = format!("n{:04x}", i / 2); if i % 2 == 0 { b } else { b.replace('n', "N") } }
        _ => { let l = r.range(1, 12); format!("{}{}", (0..l).map(|_| *r.pick(&letters)).collect::<String>(), i) } }).collect();
    names.sort(); names.dedup(); gen::shuffle(r, &mut names);
    let mut text = String::new(); let mut want: Vec<u32> = vec![]; let mut last: HashMap<String, u32> = HashMap::new();
    for (k, a) in names.iter().enumerate() { text.push_str(&format!("- &{} {}\n", a, k)); want.push(k as u32); last.insert(a.clone(), k as u32); }
    for k in 0..names.len() * 2 { let a = if r.chance(3, 4) { &names[k % names.len()] } else { r.pick(&names) };
        if r.chance(1, 12) { let x = 1_000_000 + k as u32; text.push_str(&format!("- &{} {}\n", a, x)); want.push(x); last.insert(a.clone(), x); }
        else { text.push_str(&format!("- *{}\n", a)); want.push(last[a]); } }
    cx.note(&text); cx.seen(&text, true);
    let g = read::<Vec<u32>>(&text);
    if g.as_ref() != Ok(&want) {
        let lines: Vec<&str> = text.lines().collect();
        let at = g.as_ref().ok().and_then(|g| g.iter().zip(&want).position(|(a, b)| a != b));
        return fail(format!("{} of {} anchors: {:?}, expected {:?}", at.map_or("?", |k| lines[k]), names.len(), at.map(|k| g.as_ref().unwrap()[k]), at.map(|k| want[k])) + &g.err().unwrap_or_default(), text);
    }
    let bad = format!("{}- *no-such-anchor\n", text); let g = read::<Value>(&bad); ensure!(g.is_err(), bad, "an unknown alias after {} anchors is accepted", names.len());
    Ok(())
}
/// anchors in typed documents: [v, *v, w, *v], struct fields, ignored fields
fn c10_typed(cx: &mut Cx, r: &mut Rng) -> R {
    let t = dynty::ty(r, 2, true);
    let (v, w) = (dynty::val(r, &t), dynty::val(r, &t));
    if ambiguous(&v, &t) || ambiguous(&w, &t) || any_val(&v, &|v| matches!(v, Val::Any(x) if dynty::nested_tag_v(x, true))) || dynty::nested_tag(&v, false) || dynty::nested_tag(&w, false) || bad_text(&v) || bad_text(&w) { return Ok(()); }
    let b = |t: &Ty| Box::new(t.clone());
    let an = |n: Node| n.anchored("v");
    let (text, ty, want) = match r.below(5) {
        0 => (W::doc(&seq(vec![an(of_val(&v, &t, r, true)), alias("v"), of_val(&w, &t, r, true), alias("v")])), Ty::Seq(b(&t)), Val::Seq(vec![v.clone(), v.clone(), w, v], true)),
        1 => (W::doc(&seq(vec![an(of_val(&v, &t, r, true)), alias("v"), an(of_val(&w, &t, r, true)), alias("v")])), Ty::Tuple(vec![t.clone(), t.clone(), t.clone(), t.clone()]), Val::Tuple(vec![v.clone(), v, w.clone(), w])),
        2 => (W::doc(&map(vec![(plain("unknown"), an(of_val(&v, &t, r, true))), (plain("beta"), alias("v")), (plain("other"), alias("v")), (plain("alpha"), alias("v"))])), Ty::Struct(0, vec![t.clone(), t.clone()], false), Val::Struct(0, vec![v.clone(), v])),
        3 => (W::doc(&map(vec![(plain("alpha").anchored("k"), an(of_val(&v, &t, r, true))), (plain("beta"), seq(vec![alias("v"), alias("v")]))])), Ty::Struct(0, vec![t.clone(), Ty::Seq(b(&t))], true), Val::Struct(0, vec![v.clone(), Val::Seq(vec![v.clone(), v], true)])),
        _ => (W::doc(&map(vec![(plain("x"), an(of_val(&v, &t, r, true))), (plain("y"), alias("v"))])), Ty::Map(b(&Ty::Str), Box::new(Ty::Opt(b(&t)))), Val::Map(vec![(Val::Str("x".into()), Val::Some(Box::new(v.clone()))), (Val::Str("y".into()), Val::Some(Box::new(v)))], dynty::MapStyle::Entry)),
    };
    if ambiguous(&want, &ty) { return Ok(()); }
    cx.note(&text); cx.seen(&text, true);
    let g = read_ty(&text, &ty);
    ensure!(g.as_ref() == Ok(&want), text, "as {:?} reads {:?}, expected {:?}", ty, g, want);
    Ok(())
}

// ------------------------------------------------------------------ C11
fn c11(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    match i % 4 { 0 | 1 => depth(cx, i, r), 2 => alias_depth(cx, r), _ => repetition(cx, i, r) }
}
fn is_rec<T: fmt::Debug>(r: &Result<T, String>) -> bool { matches!(r, Err(e) if e.contains("recursion limit exceeded")) }
fn depth(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    let d = if i < 200 { 124 + (i / 4 % 8) as usize } else { r.range(118, 138) };
    let mode = r.below(5);
    // mode 0: text by hand, Value target; others: typed
    let mut open = String::new(); let mut close = String::new(); let mut ty = Ty::U8; let mut val = Val::U8(7); let mut newtypes = 0;
    for _ in 0..d {
        let kind = match mode { 0 => r.below(4), 1 => 0, 2 => 1, 3 => r.below(6), _ => r.below(3) };
        match kind {
            0 => { open.insert(0, '['); close.push(']'); ty = Ty::Seq(Box::new(ty)); val = Val::Seq(vec![val], true); }
            1 | 2 => { open.insert_str(0, "{k: "); close.push('}'); if kind == 1 || mode == 0 { ty = Ty::Map(Box::new(Ty::Str), Box::new(ty)); val = Val::Map(vec![(Val::Str("k".into()), val)], dynty::MapStyle::Entry); } else { ty = Ty::Struct(7, vec![ty], false); val = Val::Struct(7, vec![val]); } }
            3 if mode == 0 => { open.insert_str(0, "!t ["); close.push(']'); }
            3 => { open.insert_str(0, "[1, "); close.push(']'); ty = Ty::Tuple(vec![Ty::U8, ty]); val = Val::Tuple(vec![Val::U8(1), val]); }
            4 => { open.insert_str(0, "[!Alpha [1, "); close.push_str("]]"); newtypes += 1; ty = Ty::Seq(Box::new(Ty::Enum(0, vec![VTy::Tuple(vec![Ty::U8, ty])]))); val = Val::Seq(vec![Val::Enum(0, 0, Box::new(VVal::Tuple(vec![Val::U8(1), val])))], true); }
            _ => { open.insert(0, '['); close.push(']'); ty = Ty::Seq(Box::new(Ty::Opt(Box::new(ty)))); val = Val::Seq(vec![Val::Some(Box::new(val))], true); }
        }
    }
    let levels = d + newtypes;
    let text = format!("{}7{}\n", open, close);
    cx.note(&text); cx.seen(&text, levels > 120);
    let over = levels > 128;
    if mode == 0 || r.chance(1, 2) {
        let g = read::<Value>(&text);
        ensure!(if over { is_rec(&g) } else { g.is_ok() }, text, "depth {}: {:?}", levels, g.map(|_| "Ok"));
    }
    if mode != 0 { let g = read_ty(&text, &ty); ensure!(if over { is_rec(&g) } else { g.as_ref() == Ok(&val) }, text, "depth {} as a typed value: {:?}", levels, g.map(|_| "Ok")); }
    // newtype wrappers count as levels
    if r.chance(1, 4) {
        let k = r.range(0, 6); let dd = r.range(120, 130);
        let mut t = Ty::U8; for j in 0..dd { t = Ty::Seq(Box::new(t)); if j < k { t = Ty::Newtype(Box::new(t)); } }
        let text = format!("{}7{}", "[".repeat(dd), "]".repeat(dd));
        let g = read_ty(&text, &t); let over = dd + k > 128;
        ensure!(if over { is_rec(&g) } else { g.is_ok() }, text, "depth {} with {} newtypes: {:?}", dd, k, g.map(|_| "Ok"));
    }
    // siblings do not matter, nor do ignored nodes
    if r.chance(1, 8) {
        let dd = r.range(100, 128); let n = r.range(100, 300);
        let text = format!("{}{}{}", "[".repeat(dd), "[], {}, 1, ".repeat(if dd < 128 { n } else { 0 }), "1, ".repeat(n) + &"]".repeat(dd));
        let g = read::<Value>(&text); ensure!(g.is_ok(), text, "depth {} with {} siblings: {:?}", dd, n, g.map(|_| "Ok"));
        let text = format!("[{}]", (0..n).map(|_| format!("{}{}", "[".repeat(127), "]".repeat(127))).collect::<Vec<_>>().join(", "));
        let g = read::<Value>(&text); ensure!(g.is_ok(), text, "{} siblings of depth 127: {:?}", n, g.map(|_| "Ok"));
    }
    Ok(())
}
fn alias_depth(cx: &mut Cx, r: &mut Rng) -> R {
    // k pieces, each holding the previous one through an alias: depths add up
    let parts = r.range(2, 5); let total = r.range(122, 133);
    let mut cuts: Vec<usize> = (0..parts - 1).map(|_| r.range(1, total - 2)).collect(); cuts.sort(); cuts.dedup();
    let mut prev = 0; let mut sizes = vec![]; for c in cuts { sizes.push(c - prev); prev = c; } sizes.push(total - 1 - prev); sizes.retain(|x| *x > 0);
    let mut text = String::new();
    for (j, s) in sizes.iter().enumerate() {
        let (o, c) = if r.chance(1, 2) { ("[", "]") } else { ("{k: ", "}") };
        let inner = if j == 0 { "7".to_string() } else { format!("*a{}", j - 1) };
        text.push_str(&format!("- &a{} {}{}{}\n", j, o.repeat(*s), inner, c.repeat(*s)));
    }
    cx.note(&text); cx.seen(&text, true);
    let sum: usize = sizes.iter().sum();
    let levels = 1 + sum;
    let g = read::<Value>(&text);
    ensure!(if levels > 128 { is_rec(&g) } else { g.is_ok() }, text, "depth {} through aliases: {:?}", levels, g.map(|_| "Ok"));
    // a node that contains itself
    let text = format!("{}&a {}", "[".repeat(3), r.s(&["[*a]", "{k: *a}", "[1, [*a]]", "{k: [*a], l: 1}", "{*a : 1}", "!t [*a]", "[!t [*a]]"])) + &"]".repeat(3);
    let g = read::<Value>(&text); ensure!(is_rec(&g), text, "a node that contains itself reads as {:?}", g);
    let g = read::<IgnoredAny>(&text); ensure!(g.is_ok(), text, "ignoring a node that contains itself: {:?}", g);
    Ok(())
}
fn repetition(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    let m = r.range(5, if i < 400 { 20 } else { 50 });
    let (node_a, ev_a) = *r.pick(&[("s", 1usize), ("[1]", 3), ("{k: v}", 4)]);
    let j_b = 100usize; let j_c = m * (1 + j_b);
    let base_ev = 2 + ev_a + (2 + 100) + (2 + m);
    let base_j = j_b + j_c;
    let mut nc = 0usize;
    while ((base_j + (nc + 1) * (1 + j_c)) as i64) <= 100 * (base_ev + nc + 1) as i64 { nc += 1; if nc > 2000 { break; } }
    let diff = (base_j + nc * (1 + j_c)) as i64 - 100 * (base_ev + nc) as i64; // <= 0
    // each *b adds one to the difference
    let delta = if i < 400 { (i / 4 % 5) as i64 - 2 } else { r.range(0, 6) as i64 - 3 };
    let nb = (delta - diff).max(0) as usize;
    let mut text = format!("- &a {}\n- &b [{}]\n- &c [{}]\n", node_a, vec!["*a"; 100].join(", "), vec!["*b"; m].join(", "));
    for _ in 0..nc { text.push_str("- *c\n"); }
    for _ in 0..nb { text.push_str("- *b\n"); }
    let jumps = base_j + nc * (1 + j_c) + nb * (1 + j_b); let ev = base_ev + nc + nb;
    let over = jumps > 100 * ev;
    cx.note(&text); cx.seen(&format!("{} {}", jumps, ev), true);
    let g = read::<Value>(&text).map(|_| ());
    ensure!(if over { matches!(&g, Err(e) if e.contains("repetition limit exceeded")) } else { g.is_ok() }, text, "{} jumps, {} events: {:?}", jumps, ev, g);
    if i % 16 == 3 {
        // exponential expansion stays bounded
        let mut t = String::from("- &a0 [x, x]\n"); for k in 1..40 { t.push_str(&format!("- &a{} [*a{}, *a{}, *a{}]\n", k, k - 1, k - 1, k - 1)); }
        let g = read::<Value>(&t).map(|_| ()); ensure!(matches!(&g, Err(e) if e.contains("repetition limit exceeded")), t, "an exponential expansion gives {:?}", g);
        // many aliases, each cheap, are fine
        let t = format!("- &a x\n{}", "- *a\n".repeat(3000)); let g = read::<Vec<String>>(&t); ensure!(matches!(&g, Ok(v) if v.len() == 3001 && v.iter().all(|x| x == "x")), "- &a x and 3000 aliases", "3000 aliases: {:?}", g.map(|v| v.len()));
    }
    Ok(())
}

// ------------------------------------------------------------------ C12
/// takes the first k elements or entries of whatever comes
struct Take(usize);
impl<'de> Visitor<'de> for Take { type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("anything") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<usize, A::Error> { let mut n = 0; while n < self.0 { if a.next_element::<IgnoredAny>()?.is_none() { break; } n += 1; } Ok(n) }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<usize, A::Error> { let mut n = 0; while n < self.0 { if a.next_entry::<IgnoredAny, IgnoredAny>()?.is_none() { break; } n += 1; } Ok(n) } }
/// (key, value) pairs and elements in the order they arrive, everything as Values
struct Log;
struct LogV(Vec<(Option<Value>, Value)>);
impl<'de> Visitor<'de> for Log { type Value = LogV;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a collection") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<LogV, A::Error> { let mut v = vec![]; while let Some(x) = a.next_element::<Value>()? { v.push((None, x)); } Ok(LogV(v)) }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<LogV, A::Error> { let mut v = vec![]; while let Some(k) = a.next_key::<Value>()? { let x = a.next_value::<Value>()?; v.push((Some(k), x)); } Ok(LogV(v)) } }
fn skip(v: &Val, t: &Ty) -> bool { ambiguous(v, t) || dynty::nested_tag(v, false) || bad_text(v) }
fn c12(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    if i >= 300 && i % 60 == 11 { return c12_big(cx, r); }
    match r.below(6) {
        0 | 1 => { // unknown and shuffled fields
            let t0 = dynty::ty(r, 3, true); let t = if r.chance(1, 2) { t0 } else { Ty::Struct(0, vec![t0, dynty::ty(r, 2, true), Ty::Ignored], false) };
            let mut v = dynty::val(r, &t); if let (Val::Struct(_, f), Ty::Struct(..)) = (&mut v, &t) { for x in f.iter_mut() { if matches!(x, Val::Ignored) { *x = Val::Ignored; } } }
            if bad_text(&v) || dynty::nested_tag(&v, false) || ambig_but_ignored(&v, &t) { return Ok(()); }
            let n = of_val(&v, &t, r, true); let text = W::doc(&n); cx.note(&text); cx.seen(&text, true);
            let g = read_ty(&text, &t); ensure!(g.as_ref() == Ok(&v), text, "as {:?} reads {:?}, expected {:?}", t, g, v);
            let g = read::<IgnoredAny>(&text); ensure!(g.is_ok(), text, "ignoring the document fails: {:?}", g);
        }
        2 => { // too few, too many
            let n = r.range(1, 4); let tys: Vec<Ty> = (0..n).map(|_| dynty::ty(r, 1, true)).collect();
            let vs: Vec<Val> = tys.iter().map(|t| dynty::val(r, t)).collect();
            if vs.iter().zip(&tys).any(|(v, t)| skip(v, t)) { return Ok(()); }
            let mut nodes: Vec<Node> = vs.iter().zip(&tys).map(|(v, t)| of_val(v, t, r, true)).collect();
            let more = r.chance(1, 2);
            let k = if more { for _ in 0..r.range(1, 3) { nodes.push(yamlgen::junk(r, 2)); } nodes.len() } else { let k = r.below(nodes.len()); nodes.truncate(k); k };
            let t = if r.chance(1, 2) { Ty::Tuple(tys) } else { Ty::TupleStruct(tys) };
            let inner = seq(nodes);
            let (doc, t) = match r.below(5) { 0 => (seq(vec![inner]), Ty::Seq(Box::new(t))), 1 => (map(vec![(plain("alpha"), inner)]), Ty::Struct(0, vec![t], false)), 2 => (map(vec![(plain("q"), inner)]), Ty::Map(Box::new(Ty::Str), Box::new(t))), 3 => (seq(vec![inner.anchored("z"), alias("z")]), Ty::Seq(Box::new(t))), _ => (inner, t) };
            let text = W::doc(&doc); cx.note(&text); cx.seen(&text, true);
            let g = read_ty(&text, &t);
            ensure!(matches!(&g, Err(e) if e.contains(&format!("invalid length {}", k))), text, "as {:?} (wrong number of elements, {}) reads {:?}", t, k, g);
        }
        3 => { // a visitor that stops early
            let n = r.below(5); let k = r.below(6); let kv = r.chance(1, 2);
            let doc = if kv { map((0..n).map(|i| (plain(&format!("k{}", i)), yamlgen::junk(r, 2))).collect()) } else { seq((0..n).map(|_| yamlgen::junk(r, 2)).collect()) };
            let text = W::doc(&doc); cx.note(&text); cx.seen(&text, true);
            for how in 0..4 {
                let d = Deserializer::from_str(&text);
                let g = match (how, kv) { (0, _) => d.deserialize_any(Take(k)), (1, true) => d.deserialize_map(Take(k)), (1, false) => d.deserialize_seq(Take(k)), (2, true) => d.deserialize_struct("S", &[], Take(k)), (2, false) => d.deserialize_tuple(k, Take(k)), (_, true) => d.deserialize_map(Take(k)), (_, false) => d.deserialize_tuple_struct("T", k, Take(k)) }.map_err(|e| e.to_string());
                if k >= n { ensure!(g == Ok(n), text, "taking {} gives {:?}", k, g); } else { ensure!(matches!(&g, Err(e) if e.contains(&format!("invalid length {}", n))), text, "taking {} of {} gives {:?}", k, n, g); }
            }
        }
        4 => { // repeated keys and fields
            let (a, b) = (yamlgen::junk(r, 1), yamlgen::junk(r, 1));
            let key = r.s(&["alpha", "x", "1", "true", "null"]);
            let mut es = vec![(plain(key), plain("1")), (plain(key), plain("2"))]; if r.chance(1, 2) { es.insert(r.below(3), (plain("other"), plain("3"))); }
            if r.chance(1, 3) { es[0].1 = a; es[1].1 = b; }
            let doc = map(es); let text = W::doc(&if r.chance(1, 3) { seq(vec![doc]) } else { doc });
            cx.note(&text); cx.seen(&text, true);
            let g = read::<Value>(&text); ensure!(g.is_err(), text, "a repeated key is accepted: {:?}", g);
            let t = W::doc(&map(vec![(plain("alpha"), plain("1")), (plain("beta"), plain("1")), (plain("alpha"), plain("1"))]));
            let g = read_ty(&t, &Ty::Struct(0, vec![Ty::U8, Ty::U8], false)); ensure!(matches!(&g, Err(e) if e.contains("duplicate field")), t, "a repeated field is accepted: {:?}", g);
            let v = gen::value(r, gen::Opts { depth: 2, strings: false, ..gen::FULL }); if bad_tag(&v) || dynty::nested_tag_v(&v, false) { return Ok(()); }
            let mut n1 = of_value(&v, r); let n2 = of_value(&v, r); n1.flow = true;
            let t = W::doc(&map(vec![(n1, plain("1")), (n2, plain("2"))]));
            let g = read::<Value>(&t); ensure!(g.is_err(), t, "a repeated key is accepted: {:?}", g);
        }
        _ => { // order and pairing
            let v = gen::value(r, gen::Opts { depth: 3, ..gen::FULL }); if bad_tag(&v) || dynty::nested_tag_v(&v, false) { return Ok(()); }
            let want: Vec<(Option<Value>, Value)> = match &v { Value::Sequence(s) => s.iter().map(|x| (None, x.clone())).collect(), Value::Mapping(m) => m.iter().map(|(k, x)| (Some(k.clone()), x.clone())).collect(), _ => return Ok(()) };
            let text = W::doc(&of_value(&v, r)); cx.note(&text); cx.seen(&text, true);
            let g = Deserializer::from_str(&text).deserialize_any(Log).map(|l| l.0).map_err(|e| e.to_string());
            ensure!(matches!(&g, Ok(l) if l.len() == want.len() && l.iter().zip(&want).all(|((k, x), (k2, x2))| match (k, k2) { (None, None) => true, (Some(a), Some(b)) => same(a, b), _ => false } && same(x, x2))), text, "the visitor saw {:?}, expected {:?}", g, want);
        }
    }
    Ok(())
}
/// long collections: repeated keys far apart, one element too many, visitors that stop anywhere
fn c12_big(cx: &mut Cx, r: &mut Rng) -> R {
    let hi = if r.chance(1, 6) { 1500 } else { 200 }; let n = gen::biglen(r, hi);
    let flow = r.chance(1, 2);
    match r.below(5) {
        0 | 1 => { // a repeated key anywhere, at any distance
            let ks = gen::keys(r, n); if bad_tag(&Value::Sequence(ks.clone())) { return Ok(()); }
            let mut es: Vec<(Node, Node)> = ks.iter().enumerate().map(|(j, k)| (of_value(k, r), plain(&j.to_string()))).collect();
            let clean = Node { flow, ..map(es.clone()) };
            let text = W::doc(&clean); cx.note(&text); cx.seen(&text, true);
            let g = Deserializer::from_str(&text).deserialize_any(Log).map(|l| l.0).map_err(|e| e.to_string());
            ensure!(matches!(&g, Ok(l) if l.len() == n && l.iter().zip(&ks).enumerate().all(|(j, ((k, x), w))| matches!(k, Some(k) if same(k, w)) && *x == Value::from(j as u64))), text, "{} entries are seen as {:?}", n, g);
            let g = read::<Value>(&text); ensure!(matches!(&g, Ok(Value::Mapping(m)) if m.len() == n && m.iter().zip(&ks).enumerate().all(|(j, ((k, x), w))| same(k, w) && *x == Value::from(j as u64))), text, "{} distinct keys read as {:?}", n, g);
            let (from, to) = (r.below(n), r.range(0, n)); let val = if r.chance(1, 2) { es[from].1.clone() } else { plain("new") };
            es.insert(to, (of_value(&ks[from], r), val));
            let text = W::doc(&Node { flow, ..map(es) }); cx.note(&text);
            let g = read::<Value>(&text); ensure!(g.is_err(), text, "a key repeated at entries {} and {} of {} is accepted", from, to, n);
            let g = read::<serde_yaml::Mapping>(&text); ensure!(g.is_err(), text, "a key repeated at entries {} and {} of {} is accepted by Mapping", from, to, n);
        }
        2 => { // a repeated field far away
            let mut es: Vec<(Node, Node)> = (0..n).map(|j| (plain(&format!("u{}", j)), plain("1"))).collect();
            es.insert(r.below(es.len() + 1), (plain("beta"), plain("2")));
            let a = r.below(es.len() + 1); es.insert(a, (plain("alpha"), plain("1")));
            let t = Ty::Struct(0, vec![Ty::U8, Ty::U8], false);
            let text = W::doc(&Node { flow, ..map(es.clone()) }); cx.note(&text); cx.seen(&text, true);
            let g = read_ty(&text, &t); ensure!(g == Ok(Val::Struct(0, vec![Val::U8(1), Val::U8(2)])), text, "a struct among {} unknown fields reads as {:?}", n, g);
            let b = r.below(es.len() + 1); es.insert(b, (plain("alpha"), plain("1")));
            let text = W::doc(&Node { flow, ..map(es) });
            let g = read_ty(&text, &t); ensure!(matches!(&g, Err(e) if e.contains("duplicate field")), text, "a repeated field (places {} and {} of {}) is accepted: {:?}", a, b, n, g);
        }
        3 => { // exact lengths
            let k = match r.below(4) { 0 => n, 1 => n - 1, 2 => n + 1, _ => r.below(n + 3) };
            let tys = vec![Ty::U16; n]; let t = if r.chance(1, 2) { Ty::Tuple(tys) } else { Ty::TupleStruct(tys) };
            let inner = Node { flow, ..seq((0..k).map(|j| plain(&j.to_string())).collect()) };
            let (doc, t, nested) = if r.chance(1, 2) { (inner, t, false) } else { (map(vec![(plain("alpha"), inner)]), Ty::Struct(0, vec![t], false), true) };
            let text = W::doc(&doc); cx.note(&text); cx.seen(&text, true);
            let g = read_ty(&text, &t);
            if k == n { let vs: Vec<Val> = (0..n).map(|j| Val::U16(j as u16)).collect(); let w = Val::Tuple(vs.clone()); let w2 = Val::TupleStruct(vs);
                ensure!(matches!(&g, Ok(x) if *x == w || *x == w2 || nested && matches!(x, Val::Struct(_, f) if f[0] == w || f[0] == w2)), text, "{} elements read as {:?}", n, g); }
            else { ensure!(matches!(&g, Err(e) if e.contains(&format!("invalid length {}", k))), text, "{} elements for {}: {:?}", k, n, g); }
        }
        _ => { // stopping early
            let kv = r.chance(1, 2); let k = match r.below(3) { 0 => n, 1 => n.saturating_sub(r.range(1, 3)), _ => r.below(n + 2) };
            let doc = if kv { map((0..n).map(|i| (plain(&format!("k{}", i)), plain("v"))).collect()) } else { seq((0..n).map(|_| plain("v")).collect()) };
            let text = W::doc(&Node { flow, ..doc }); cx.note(&text); cx.seen(&text, true);
            for how in 0..3 {
                let d = Deserializer::from_str(&text);
                let g = match (how, kv) { (0, _) => d.deserialize_any(Take(k)), (1, true) => d.deserialize_map(Take(k)), (1, false) => d.deserialize_seq(Take(k)), (_, true) => d.deserialize_struct("S", &[], Take(k)), (_, false) => d.deserialize_tuple(k, Take(k)) }.map_err(|e| e.to_string());
                if k >= n { ensure!(g == Ok(n), text, "taking {} gives {:?}", k, g); } else { ensure!(matches!(&g, Err(e) if e.contains(&format!("invalid length {}", n))), text, "taking {} of {} gives {:?}", k, n, g); }
            }
        }
    }
    Ok(())
}
fn ambig_but_ignored(v: &Val, t: &Ty) -> bool {
    match (v, t) { (Val::Struct(_, f), Ty::Struct(_, ts, _)) => f.iter().zip(ts).any(|(v, t)| !matches!(v, Val::Ignored) && ambiguous(v, t)), _ => ambiguous(v, t) }
}

// ------------------------------------------------------------------ C13
/// a stream of very many small documents
fn c13_many(cx: &mut Cx, r: &mut Rng) -> R {
    let n = match r.below(3) { 0 => *r.pick(&[127usize, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65_534, 65_535, 65_536, 65_537, 65_538]), 1 => 256 * r.range(1, 20), _ => r.range(100, 2000) };
    let form = r.below(3);
    let mut text = String::new(); for i in 0..n { match form { 0 => text.push_str(&format!("---\n{}\n", i)), 1 => text.push_str(&format!("--- {}\n...\n", i)), _ => text.push_str(&format!("--- !!int {}\n", i)) } }
    let bad = r.chance(1, 3); if bad { text.push_str("---\n[1\n"); }
    let name = format!("{} documents, {:?}...", n, &text[..20]); cx.note(&name); cx.seen(&name, true);
    let got: Vec<Result<u64, String>> = Deserializer::from_str(&text).take(n + 6).map(|d| u64::deserialize(d).map_err(|e| e.to_string())).collect();
    ensure!(got.len() == n + bad as usize, name, "{} items for {} documents; the last is {:?}", got.len(), n + bad as usize, got.last());
    for (i, g) in got.iter().take(n).enumerate() { ensure!(*g == Ok(i as u64), name, "document {} reads as {:?}", i, g); }
    if bad { ensure!(got[n].is_err(), name, "the broken document reads as {:?}", got[n]); }
    Ok(())
}
fn c13(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    if i % 150 == 77 { return c13_many(cx, r); }
    let k = if i < 28 { (i % 7) as usize } else if i % 40 == 33 { gen::biglen(r, 70) } else { r.below(5) };
    let mut vals = vec![]; while vals.len() < k { let v = if k > 7 && r.chance(1, 2) { if r.chance(1, 2) { Value::Null } else { Value::from(vals.len() as u64) } } else { gen::value(r, gen::Opts { depth: 2, ..gen::FULL }) }; if !bad_tag(&v) && !dynty::nested_tag_v(&v, false) { vals.push(v); } }
    let mut text: String = if k == 0 { r.s(&["", "\n", "# comment\n", "  \n# c\n\n", "%YAML 1.2\n---\n...\n", "---\n"]).to_string() } else { String::new() };
    let void = k == 0 && !text.contains("---");
    if k == 0 && !void { vals.push(Value::Null); }
    let explicit = k == 0 && !void;
    if !explicit { for v in &vals { if r.chance(1, 6) { text.push_str("# comment\n"); } if v.is_null() && !matches!(v, Value::Tagged(_)) && r.chance(1, 3) { text.push_str("---\n"); } else { text.push_str(&W::doc(&of_value(v, r))); } if r.chance(1, 5) { text.push_str("...\n"); } } }
    // broken tail: the item after the good ones is one error, then nothing
    let tail = if vals.is_empty() || explicit || r.chance(1, 2) { "" } else { r.s(&["---\n[1, 2\n", "---\n- a\n b: c\n- }\n", "--- {a: 1\n", "--- \"abc\n", "--- @x\n", "---\n- *nope\n- [1, 2]\n- x\n", "--- *nope\n", "---\n{a: *nope}\n", "---\n- 1\n- *nope\n---\nok\n", "---\n[1, 2\n---\nok\n", "---\n\tx: [\n", "---\n? *nope\n: 1\n", "---\na: 'b\n", "---\n[[[*nope]]]\n", "--- |\n a\n@x\n", "--- >\n a\n`x\n"]) };
    text.push_str(tail);
    cx.note(&text); cx.seen(&text, true);
    let got: Vec<Result<Value, String>> = Deserializer::from_str(&text).take(vals.len() + 6).map(|d| Value::deserialize(d).map_err(|e| e.to_string())).collect();
    if void {
        ensure!(got.len() == 1 && matches!(&got[0], Ok(Value::Null)), text, "an empty stream is iterated as {:?}", got);
        let g = read::<u8>(&text); ensure!(matches!(&g, Err(e) if e.contains("EOF")), text, "an empty stream read as a u8 gives {:?}", g);
        let g = read::<String>(&text); ensure!(matches!(&g, Err(e) if e.contains("EOF")), text, "an empty stream read as a string gives {:?}", g);
        return Ok(());
    }
    let n = vals.len() + (tail != "") as usize;
    ensure!(got.len() == n, text, "{} items for {} documents: {:?}", got.len(), n, got);
    for (g, v) in got.iter().zip(&vals) { ensure!(matches!(g, Ok(x) if same(x, v)), text, "a document reads as {:?}, expected {:?}", g, v); }
    if tail != "" { ensure!(got[n - 1].is_err(), text, "the broken document reads as {:?}", got[n - 1]); }
    // other targets see the same items
    let ign: Vec<bool> = Deserializer::from_str(&text).take(vals.len() + 6).map(|d| IgnoredAny::deserialize(d).is_ok()).collect();
    ensure!(ign.len() == n && ign[..vals.len()].iter().all(|x| *x) && (tail == "" || !ign[n - 1]), text, "ignoring the items: {:?}", ign);
    let rd: Vec<Result<Value, String>> = Deserializer::from_reader(text.as_bytes()).take(vals.len() + 6).map(|d| Value::deserialize(d).map_err(|e| e.to_string())).collect();
    ensure!(rd.len() == n && rd.iter().zip(&got).all(|(a, b)| vres(a, b)), text, "iterating a reader gives {:?}, a str {:?}", rd, got);
    // as one value
    let one = read::<Value>(&text);
    match (vals.len(), tail) {
        (1, "") => ensure!(matches!(&one, Ok(x) if same(x, &vals[0])), text, "as one value: {:?}", one),
        (0, _) => {}
        (1, _) | (_, "") => ensure!(matches!(&one, Err(e) if e.contains("more than one document")), text, "{} documents as one value: {:?}", n, one),
        _ => ensure!(one.is_err(), text, "{} documents as one value: {:?}", n, one),
    }
    let ig = read::<IgnoredAny>(&text); ensure!(ig.is_ok() == (n == 1), text, "ignoring {} documents as one value: {:?}", n, ig);
    // an iterated item is one document and iterates as nothing further
    if let Some(mut d) = Deserializer::from_str(&text).next() { ensure!(d.next().is_none(), text.clone(), "an item of the stream iterates further"); }
    let mut it = Deserializer::from_str(&text); it.next(); let rest = Value::deserialize(it); ensure!(rest.is_err(), text, "a partly iterated stream was read as one value");
    Ok(())
}

// ------------------------------------------------------------------ C15
#[derive(Debug)]
enum B<'a> { Lent(&'a str), Own(String), Seq(Vec<B<'a>>), Map(Vec<(B<'a>, B<'a>)>), Other, Tag(Box<(B<'a>, B<'a>)>) }
struct BV;
impl<'de> Visitor<'de> for BV { type Value = B<'de>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("anything") }
    fn visit_borrowed_str<E>(self, v: &'de str) -> Result<B<'de>, E> { Ok(B::Lent(v)) }
    fn visit_str<E>(self, v: &str) -> Result<B<'de>, E> { Ok(B::Own(v.into())) }
    fn visit_bool<E>(self, _: bool) -> Result<B<'de>, E> { Ok(B::Other) } fn visit_u64<E>(self, _: u64) -> Result<B<'de>, E> { Ok(B::Other) } fn visit_i64<E>(self, _: i64) -> Result<B<'de>, E> { Ok(B::Other) } fn visit_u128<E>(self, _: u128) -> Result<B<'de>, E> { Ok(B::Other) } fn visit_i128<E>(self, _: i128) -> Result<B<'de>, E> { Ok(B::Other) } fn visit_f64<E>(self, _: f64) -> Result<B<'de>, E> { Ok(B::Other) } fn visit_unit<E>(self) -> Result<B<'de>, E> { Ok(B::Other) } fn visit_none<E>(self) -> Result<B<'de>, E> { Ok(B::Other) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<B<'de>, A::Error> { let mut v = vec![]; while let Some(x) = a.next_element()? { v.push(x); } Ok(B::Seq(v)) }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<B<'de>, A::Error> { let mut v = vec![]; while let Some(x) = a.next_entry()? { v.push(x); } Ok(B::Map(v)) }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<B<'de>, A::Error> { use de::VariantAccess; let (k, v) = a.variant::<B>()?; Ok(B::Tag(Box::new((k, v.newtype_variant()?)))) } }
impl<'de> Deserialize<'de> for B<'de> { fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<B<'de>, D::Error> { d.deserialize_any(BV) } }
struct BS<'a>(B<'a>);
impl<'de> Deserialize<'de> for BS<'de> { fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<BS<'de>, D::Error> { d.deserialize_str(BV).map(BS) } }
fn lent<'a>(b: &B<'a>, f: &mut dyn FnMut(&'a str)) { match b { B::Lent(s) => f(s), B::Own(_) | B::Other => {} B::Seq(v) => v.iter().for_each(|x| lent(x, f)), B::Map(v) => v.iter().for_each(|(k, x)| { lent(k, f); lent(x, f) }), B::Tag(t) => { lent(&t.0, f); lent(&t.1, f) } } }
fn strings(b: &B, out: &mut Vec<String>) { match b { B::Lent(s) => out.push(s.to_string()), B::Own(s) => out.push(s.clone()), B::Other => {} B::Seq(v) => v.iter().for_each(|x| strings(x, out)), B::Map(v) => v.iter().for_each(|(k, x)| { strings(k, out); strings(x, out) }), B::Tag(t) => strings(&t.1, out) } }
fn vstrings(v: &Value, out: &mut Vec<String>) { match v { Value::String(s) => out.push(s.clone()), Value::Sequence(s) => s.iter().for_each(|x| vstrings(x, out)), Value::Mapping(m) => m.iter().for_each(|(k, x)| { vstrings(k, out); vstrings(x, out) }), Value::Tagged(t) => vstrings(&t.value, out), _ => {} } }
/// some text: a written document, a mutated one, or junk
fn some_text(r: &mut Rng) -> String {
    let mut t = match r.below(5) {
        0 => gen::string(r),
        1 => { let v = gen::value(r, gen::FULL); serde_yaml::to_string(&v).unwrap_or_default() }
        2 => { let n = yamlgen::junk(r, 3); W::doc(&n) }
        3 => { let mut g = G { names: vec![], budget: 8 }; W::doc(&seq((0..3).map(|_| anchored_node(r, &mut g, 2)).collect())) }
        _ => { let t = dynty::ty(r, 3, true); let v = dynty::val(r, &t); W::doc(&of_val(&v, &t, r, true)) }
    };
    if r.chance(1, 2) { for _ in 0..r.range(1, 3) { t = gen::mutate(&t, r); } }
    if r.chance(1, 20) { t.insert(0, '\u{feff}'); }
    if r.chance(1, 12) { let u = gen::string(r); t.push_str(&u); }
    t
}
/// a document of some 10 to 200 KB
fn long_text(r: &mut Rng) -> String {
    let n = r.range(500, 4000);
    let mut v: Vec<Value> = match r.below(3) { 0 => gen::big_seq(r, n), 1 => vec![Value::Mapping(gen::big_map(r, n))], _ => (0..r.range(1, 4)).map(|_| Value::String(gen::long_string(r, 60_000))).collect() };
    v.push(Value::String(gen::string(r)));
    let mut t = if r.chance(1, 2) { serde_yaml::to_string(&v).unwrap_or_default() } else { W::doc(&of_value(&Value::Sequence(v), r)) };
    if r.chance(1, 2) { t.push_str(r.s(&["- 'end'\n", "- *x\n", "]\n", "- \"é\n", "---\n- 2\n", "# the end", "- |\n  x\n  y"])); }
    t
}
fn some_bytes(r: &mut Rng) -> Vec<u8> {
    let t = some_text(r);
    let mut b = match r.below(24) {
        0 => "\u{feff}".chars().chain(t.chars()).collect::<String>().encode_utf16().flat_map(|u| u.to_le_bytes()).collect(),
        1 => "\u{feff}".chars().chain(t.chars()).collect::<String>().encode_utf16().flat_map(|u| u.to_be_bytes()).collect(),
        _ => t.into_bytes(),
    };
    for _ in 0..r.below(4) { if b.is_empty() { break; } let i = r.below(b.len()); match r.below(4) { 0 => b[i] = r.next() as u8, 1 => { b.remove(i); } 2 => b.insert(i, *r.pick(&[0u8, 0x80, 0xc0, 0xe2, 0xf0, 0xff, 0xfe, b'\n', b'&', b'*', b'!', b'%'])), _ => b.truncate(i) } }
    b
}
fn c15(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    let text = if i >= 300 && i % 150 == 31 { long_text(r) } else { some_text(r) }; cx.note(&text); cx.seen(&text, true);
    let a = read::<Value>(&text);
    let b = serde_yaml::from_slice::<Value>(text.as_bytes()).map_err(|e| e.to_string());
    ensure!(vres(&a, &b), text, "from_str gives {:?}, from_slice {:?}", a, b);
    let c = serde_yaml::from_reader::<_, Value>(crate::p_ser::chunked(text.as_bytes(), r)).map_err(|e| e.to_string());
    ensure!(vres(&a, &c), text, "from_str gives {:?}, from_reader {:?}", a, c);
    let t = dynty::ty(r, 2, true);
    let (x, y, z) = (read_ty(&text, &t), Seed(&t).deserialize(Deserializer::from_slice(text.as_bytes())).map_err(|e| e.to_string()), Seed(&t).deserialize(Deserializer::from_reader(crate::p_ser::chunked(text.as_bytes(), r))).map_err(|e| e.to_string()));
    ensure!(x == y && x == z, text, "as {:?}: from_str gives {:?}, from_slice {:?}, from_reader {:?}", t, x, y, z);
    // lent strings
    let range = text.as_ptr() as usize..=text.as_ptr() as usize + text.len();
    if let Ok(b) = serde_yaml::from_str::<B>(&text) {
        let mut bad = None; lent(&b, &mut |s| { let p = s.as_ptr() as usize; if !(range.contains(&p) && range.contains(&(p + s.len()))) && !matches!(s, "") { bad = Some(s.to_string()); } });
        ensure!(bad.is_none(), text, "a lent string {:?} lies outside the input", bad);
        if let Ok(v) = &a { let (mut p, mut q) = (vec![], vec![]); strings(&b, &mut p); vstrings(v, &mut q); ensure!(p == q, text, "the strings are {:?} when lent, {:?} as a Value", p, q); }
    }
    if let Ok(BS(b)) = serde_yaml::from_str::<BS>(&text) { let mut ok = true; lent(&b, &mut |s| { let p = s.as_ptr() as usize; ok &= range.contains(&p) && range.contains(&(p + s.len())) }); ensure!(ok, text, "a lent string lies outside the input"); let s = read::<String>(&text); let mut p = vec![]; strings(&b, &mut p); ensure!(s.as_ref().ok() == p.first(), text, "lent {:?}, as String {:?}", p, s); }
    if let Ok(b) = serde_yaml::from_reader::<_, Own>(text.as_bytes()) { ensure!(!b.0, text, "a reader lent a string"); }
    // bytes that are not text
    let raw = some_bytes(r); let inp = format!("{:?}", String::from_utf8_lossy(&raw)); cx.note(&inp);
    let a = serde_yaml::from_slice::<Value>(&raw).map_err(|e| e.to_string()); let b = serde_yaml::from_reader::<_, Value>(crate::p_ser::chunked(&raw, r)).map_err(|e| e.to_string());
    ensure!(vres(&a, &b), format!("{:?}", raw), "from_slice gives {:?}, from_reader {:?}", a, b);
    let range = raw.as_ptr() as usize..=raw.as_ptr() as usize + raw.len();
    if let Ok(b) = serde_yaml::from_slice::<B>(&raw) {
        let mut bad = None; lent(&b, &mut |s| { let p = s.as_ptr() as usize; if !(range.contains(&p) && range.contains(&(p + s.len()))) && !matches!(s, "") { bad = Some(s.to_string()); } });
        ensure!(bad.is_none(), format!("{:?}", raw), "a lent string {:?} lies outside the input", bad);
        if let Ok(v) = &a { let (mut p, mut q) = (vec![], vec![]); strings(&b, &mut p); vstrings(v, &mut q); ensure!(p == q, format!("{:?}", raw), "the strings are {:?} when lent, {:?} as a Value", p, q); }
    }
    let docs = |d: Deserializer| d.map(|d| Value::deserialize(d).map_err(|e| e.to_string())).take(12).collect::<Vec<_>>();
    let (x, y) = (docs(Deserializer::from_slice(&raw)), docs(Deserializer::from_reader(crate::p_ser::chunked(&raw, r))));
    ensure!(x.len() == y.len() && x.iter().zip(&y).all(|(a, b)| vres(a, b)), format!("{:?}", raw), "the documents are {:?} from a slice, {:?} from a reader", x, y);
    if let Ok(s) = std::str::from_utf8(&raw) { let z = docs(Deserializer::from_str(s)); ensure!(x.len() == z.len() && x.iter().zip(&z).all(|(a, b)| vres(a, b)), format!("{:?}", raw), "the documents are {:?} from a slice, {:?} from a string", x, z); }
    if let Ok(s) = std::str::from_utf8(&raw) { let c = read::<Value>(s); ensure!(vres(&a, &c), inp, "from_slice gives {:?}, from_str {:?}", a, c); }
    Ok(())
}
/// whether a reader-based deserializer lent anything (as an owned type)
struct Own(bool);
impl<'de> Deserialize<'de> for Own { fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Own, D::Error> { let b = B::deserialize(d)?; let mut any = false; lent_no_tag(&b, &mut any); Ok(Own(any)) } }
fn lent_no_tag(b: &B, any: &mut bool) { match b { B::Lent(_) => *any = true, B::Own(_) | B::Other => {} B::Seq(v) => v.iter().for_each(|x| lent_no_tag(x, any)), B::Map(v) => v.iter().for_each(|(k, x)| { lent_no_tag(k, any); lent_no_tag(x, any) }), B::Tag(t) => lent_no_tag(&t.1, any) } }

// ------------------------------------------------------------------ C16
/// (index, line, column) of a byte offset: the index counts bytes, the column characters; a byte order mark is a character like any other
fn pos_of(text: &str, byte: usize) -> (usize, usize, usize) {
    let (mut l, mut c) = (1, 1);
    let cs: Vec<char> = text[..byte].chars().collect();
    let mut k = 0;
    while k < cs.len() { match cs[k] { '\r' if k + 1 < cs.len() && cs[k + 1] == '\n' => { k += 1; l += 1; c = 1; } '\n' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}' => { l += 1; c = 1; } _ => c += 1 } k += 1; }
    (byte, l, c)
}
/// paths of all nodes: (path text, node)
/// the document itself, in a path
const ROOT: &str = "\u{0}root";
fn leaves<'a>(n: &'a Node, v: &Val, t: &'a Ty, path: &str, out: &mut Vec<(String, &'a Node)>) {
    let parent = |p: &str| if p == ROOT { String::new() } else { format!("{}.", p) };
    let ix = |p: &str, i: usize| format!("{}[{}]", p, i);
    match (v, t, &n.kind) {
        (Val::Seq(v, _), Ty::Seq(t), Kind::Seq(ns)) => for (i, (x, n)) in v.iter().zip(ns).enumerate() { leaves(n, x, t, &ix(path, i), out) },
        (Val::Tuple(v), Ty::Tuple(t), Kind::Seq(ns)) | (Val::TupleStruct(v), Ty::TupleStruct(t), Kind::Seq(ns)) => for (i, ((x, n), t)) in v.iter().zip(ns).zip(t).enumerate() { leaves(n, x, t, &ix(path, i), out) },
        (Val::Map(v, _), Ty::Map(_, t), Kind::Map(ns)) => for ((_, x), (k, n)) in v.iter().zip(ns) { if let Kind::Scalar(s, _) = &k.kind { leaves(n, x, t, &format!("{}{}", parent(path), s), out) } else { leaves(n, x, t, &format!("{}?", parent(path)), out) } },
        (Val::Struct(b, v), Ty::Struct(_, t, _), Kind::Map(ns)) => for (i, (x, t)) in v.iter().zip(t).enumerate() { for (k, n) in ns { if matches!(&k.kind, Kind::Scalar(s, _) if s == FIELDS[b + i]) { leaves(n, x, t, &format!("{}{}", parent(path), FIELDS[b + i]), out) } } },
        (Val::Some(v), Ty::Opt(t), _) | (Val::Newtype(v), Ty::Newtype(t), _) => leaves(n, v, t, path, out),
        (Val::Enum(_, i, v), Ty::Enum(_, ts), k) => match (&**v, &ts[*i], k) {
            (VVal::Newtype(v), VTy::Newtype(t), _) => leaves(n, v, t, path, out),
            (VVal::Tuple(v), VTy::Tuple(t), Kind::Seq(ns)) => for (i, ((x, n), t)) in v.iter().zip(ns).zip(t).enumerate() { leaves(n, x, t, &ix(path, i), out) },
            (VVal::Struct(b, v), VTy::Struct(_, t), Kind::Map(ns)) => for (i, (x, t)) in v.iter().zip(t).enumerate() { for (k, n) in ns { if matches!(&k.kind, Kind::Scalar(s, _) if s == FIELDS[b + i]) { leaves(n, x, t, &format!("{}{}", parent(path), FIELDS[b + i]), out) } } },
            _ => {} },
        (Val::Bool(_) | Val::I8(_) | Val::I16(_) | Val::I32(_) | Val::I64(_) | Val::I128(_) | Val::U8(_) | Val::U16(_) | Val::U32(_) | Val::U64(_) | Val::U128(_) | Val::F32(_) | Val::F64(_) | Val::Unit | Val::UnitStruct, _, Kind::Scalar(..)) => if n.tag.is_none() { out.push((path.to_string(), n)) },
        _ => {}
    }
}
fn damage(n: &mut Node, target: *const Node, new: &Kind) -> bool {
    if std::ptr::eq(n, target) { n.kind = new.clone(); return true; }
    match &mut n.kind { Kind::Seq(v) => v.iter_mut().any(|x| damage(x, target, new)), Kind::Map(v) => v.iter_mut().any(|(k, x)| damage(k, target, new) || damage(x, target, new)), _ => false }
}
fn c16(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    if i >= 300 && i % 400 == 17 { return c16_far(cx, r); }
    if i >= 300 && i % 40 == 21 { return c16_deep(cx, r); }
    if r.chance(1, 3) { return c16_fuzz(cx, r); }
    let t = dynty::ty(r, 4, false); let v = dynty::val(r, &t);
    if skip(&v, &t) { return Ok(()); }
    let extra = r.chance(1, 2);
    let mut doc = of_val(&v, &t, r, extra);
    let mut ls = vec![]; leaves(&doc, &v, &t, ROOT, &mut ls);
    if ls.is_empty() { return Ok(()); }
    let (raw, target) = r.pick(&ls).clone(); let path = match raw.strip_prefix(ROOT) { Some(rest) => format!(".{}", rest), None => raw.clone() }; let target = target as *const Node; drop(ls);
    let new = match r.below(4) { 0 => Kind::Seq(vec![]), 1 => Kind::Map(vec![]), 2 => Kind::Scalar("zzz".into(), Style::Double), _ => Kind::Scalar("zzz".into(), Style::Plain) };
    if !damage(&mut doc, target, &new) { return Ok(()); }
    // sometimes the damaged node is reached through an alias
    let (doc, path) = if let (true, Kind::Seq(_)) = (r.chance(1, 5), &doc.kind) { (doc, path) } else { (doc, path) };
    let mut w = W { out: String::from("---"), spans: vec![] };
    if r.chance(1, 4) { w.out = format!("# {}\n---", r.s(&["comment", "é", "\u{1f600} x"])); }
    w.node(&doc, 0, false); w.out.push('\n');
    let at = match w.spans.iter().find(|(_, p)| std::ptr::eq(*p, target)) { Some((b, _)) => *b, None => return Ok(()) };
    let text = w.out.clone(); cx.note(&text); cx.seen(&text, true);
    let e = match Seed(&t).deserialize(Deserializer::from_str(&text)) { Ok(v) => return fail(format!("damaged at {} but reads as {:?}", path, v), text), Err(e) => e };
    let msg = e.to_string();
    let loc = match e.location() { Some(l) => l, None => return fail(format!("no location in {:?}", msg), text) };
    let (i, l, c) = pos_of(&text, at);
    ensure!((loc.index(), loc.line(), loc.column()) == (i, l, c), text, "damaged node at index {} line {} column {}, error located at index {} line {} column {}: {}", i, l, c, loc.index(), loc.line(), loc.column(), msg);
    let prefix = if path == "." { // also for a key that is itself "."
         String::new() } else { format!("{}: ", path) };
    ensure!(msg.starts_with(&format!("{}invalid ", prefix)) || msg.starts_with(&format!("{}expected", prefix)), text, "damaged node at path {:?}, error says {:?}", path, msg);
    ensure!(msg.ends_with(&format!(" at line {} column {}", l, c)), text, "error text {:?} does not end with line {} column {}", msg, l, c);
    let dbg = format!("{:?}", e); ensure!(dbg.ends_with(&format!(", line: {}, column: {})", l, c)), text, "debug text {:?}", dbg);
    // an already located error is not relocated: the same error through a typed wrapper
    let wrapped = Seed(&Ty::Newtype(Box::new(t.clone()))).deserialize(Deserializer::from_str(&text)).map(|_| ()).map_err(|e| (e.to_string(), e.location().map(|l| (l.index(), l.line(), l.column()))));
    ensure!(wrapped == Err((msg.clone(), Some((i, l, c)))), text, "through a newtype the error is {:?}, directly {:?}", wrapped, msg);
    let rd = Seed(&t).deserialize(Deserializer::from_reader(text.as_bytes())).map(|_| ()).map_err(|e| e.to_string()); ensure!(rd == Err(msg.clone()), text, "from a reader the error is {:?}, from a str {:?}", rd, msg);
    // behind an alias: same node, path of the alias
    if let (Kind::Map(_) | Kind::Seq(_), true) = (&doc.kind, doc.anchor.is_none() && r.chance(1, 3)) {
        let d2 = map(vec![(plain("ignored"), doc.clone().anchored("z")), (plain("alpha"), alias("z"))]);
        let t2 = Ty::Struct(0, vec![t.clone()], false);
        let text = W::doc(&d2);
        let e = match Seed(&t2).deserialize(Deserializer::from_str(&text)) { Ok(v) => return fail(format!("damaged but reads as {:?}", v), text), Err(e) => e.to_string() };
        let p2 = match raw.strip_prefix(ROOT) { Some(rest) => format!("alpha{}", rest), None => format!("alpha.{}", raw) };
        ensure!(e.starts_with(&format!("{}: ", p2)), text, "damaged node at path {:?}, error says {:?}", p2, e);
    }
    Ok(())
}
/// an error far into the document: lines, columns and indices of any size
fn c16_far(cx: &mut Cx, r: &mut Rng) -> R {
    let n = *r.pick(&[254usize, 255, 256, 300, 5_000, 21_900, 33_000, 65_534, 65_535, 65_536, 70_000]) + r.below(8);
    let mut text = String::new();
    // what an element is: the damaged scalar lies inside
    let (open, close, inner, tail, t) = match r.below(5) { 0 => ("{x: ", "}", ".x", "{x: 1}", Ty::Map(Box::new(Ty::Str), Box::new(Ty::U8))), 1 => ("[", "]", "[0]", "[1]", Ty::Seq(Box::new(Ty::U8))), 2 => ("{x: [1, {y: ", "}]}", ".x[1].y", "{}", Ty::Map(Box::new(Ty::Str), Box::new(Ty::Seq(Box::new(Ty::Map(Box::new(Ty::Str), Box::new(Ty::U8))))))), _ => ("", "", "", "1", Ty::U8) };
    let t = Ty::Seq(Box::new(t));
    let (open, close) = if inner.contains("y") { ("{x: [{}, {y: ", "}]}") } else { (open, close) };
    let path = match r.below(4) {
        0 => { for _ in 0..n { text.push_str("- "); text.push_str(tail); text.push('\n'); } text.push_str("- "); format!("[{}]", n) }
        1 => { text.push('['); for _ in 0..n { text.push_str(tail); text.push_str(", "); } format!("[{}]", n) }
        2 => { text.push_str("- "); text.push_str(tail); for _ in 0..n { text.push('\n'); } text.push_str("- "); "[1]".to_string() }
        _ => { text.push('['); text.push_str(tail); text.push(','); for _ in 0..n { text.push(' '); } "[1]".to_string() }
    };
    let flow = text.starts_with('['); text.push_str(open); let at = text.len(); text.push_str("zzz"); text.push_str(close); text.push_str(if flow { "]\n" } else { "\n" });
    let name = format!("{} ... ({} bytes)", &text[..10], text.len()); cx.note(&name); cx.seen(&name, true);
    let path = format!(".{}{}", path, inner);
    let e = match Seed(&t).deserialize(Deserializer::from_str(&text)) { Ok(_) => return fail("zzz was read as a u8", name), Err(e) => e };
    let (i, l, c) = pos_of(&text, at);
    let loc = e.location().map(|l| (l.index(), l.line(), l.column()));
    ensure!(loc == Some((i, l, c)), name, "damaged node at {:?}, error located at {:?}: {}", (i, l, c), loc, e);
    let m = e.to_string(); ensure!(m.starts_with(&format!("{}: invalid type", path)) && m.ends_with(&format!(" at line {} column {}", l, c)), name, "damaged node at path {}, error says {:?}", path, m);
    Ok(())
}
/// an error at the end of a long path
fn c16_deep(cx: &mut Cx, r: &mut Rng) -> R {
    let d = r.range(5, 120);
    let mut open = String::new(); let mut close = String::new(); let mut path = String::new(); let mut t = Ty::U8;
    let mut kinds: Vec<(bool, usize, String)> = (0..d).map(|_| (r.chance(1, 2), { let h = if r.chance(1, 8) { 30 } else { 3 }; r.below(h) }, if r.chance(1, 6) { gen::word(r).repeat(1 + r.below(20)) } else { gen::word(r) })).collect();
    for (sq, n, k) in &kinds {
        if *sq { open.push('['); for _ in 0..*n { open.push_str("[], "); } close.insert(0, ']'); path.push_str(&format!("[{}]", n)); } else { open.push_str(&format!("{{{}: ", k)); close.insert(0, '}'); if !path.is_empty() { path.push('.'); } path.push_str(k); }
    }
    if path.starts_with('[') { path.insert(0, '.'); }
    kinds.reverse();
    // the skipped elements are empty collections of the element's own kind
    for (sq, _, _) in &kinds { t = if *sq { Ty::Seq(Box::new(t)) } else { Ty::Map(Box::new(Ty::Str), Box::new(t)) }; }
    let mut fixed = String::new(); { kinds.reverse(); for (j, (sq, n, k)) in kinds.iter().enumerate() { if *sq { fixed.push('['); for _ in 0..*n { fixed.push_str(match kinds.get(j + 1) { None => "1, ", Some((true, ..)) => "[], ", Some(_) => "{}, " }); } } else { fixed.push_str(&format!("{{{}: ", k)); } } }
    let _ = open;
    let text = format!("--- {}zzz{}\n", fixed, close); cx.note(&text); cx.seen(&text, true);
    let e = match Seed(&t).deserialize(Deserializer::from_str(&text)) { Ok(v) => return fail(format!("zzz reads as {:?}", v), text), Err(e) => e };
    let (i, l, c) = pos_of(&text, 4 + fixed.len());
    let loc = e.location().map(|l| (l.index(), l.line(), l.column())); let m = e.to_string();
    ensure!(loc == Some((i, l, c)), text, "damaged node at {:?}, error located at {:?}", (i, l, c), loc);
    ensure!(m.starts_with(&format!("{}: invalid ", path)) && m.ends_with(&format!(" at line {} column {}", l, c)), text, "damaged node at path {:?}, error says {:?}", path, m);
    Ok(())
}
fn c16_fuzz(cx: &mut Cx, r: &mut Rng) -> R {
    let text = some_text(r); cx.note(&text);
    let t = dynty::ty(r, 2, true);
    let e = match Seed(&t).deserialize(Deserializer::from_str(&text)) { Ok(_) => match serde_yaml::from_str::<Value>(&text) { Ok(_) => return Ok(()), Err(e) => e }, Err(e) => e };
    cx.seen(&text, true);
    loc_ok(&text, &e)
}
fn loc_ok(text: &str, e: &serde_yaml::Error) -> R {
    if let Some(l) = e.location() {
        let body = text;
        ensure!(l.index() <= body.len() && body.is_char_boundary(l.index()), text, "located at index {} of {} bytes, or inside a character: {}", l.index(), body.len(), e);
        let byte = l.index();
        let (_, line, col) = pos_of(body, byte);
        // the end of the input starts a new line
        let eof = byte == body.len() && (l.line(), l.column()) == (line + 1, 1);
        ensure!(eof || (l.line(), l.column()) == (line, col), text, "located at index {}, line {} column {}, but that index is line {} column {}: {}", l.index(), l.line(), l.column(), line, col, e);
    }
    Ok(())
}

// ------------------------------------------------------------------ C18
fn c18(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    if i >= 300 && i % 40 == 23 { return c18_long(cx, r); }
    if i >= 300 && i % 40 == 31 { return c18_own(cx, r); }
    let t = dynty::ty(r, 3, true);
    let v = match r.below(4) {
        0 | 1 => { let x = dynty::val(r, &t); match dynty::model(&x) { Some(v) => v, None => return Ok(()) } }
        2 => { let x = dynty::val(r, &t); match dynty::model(&x) { Some(v) => crate::p_value::tweak(&v, r), None => return Ok(()) } }
        _ => gen::value(r, gen::Opts { depth: 2, nested_tags: false, ..gen::FULL }),
    };
    if dynty::nested_tag_v(&v, false) || bad_tag(&v) { return Ok(()); }
    let inp = format!("{:?} as {:?}", v, t); cx.note(&inp);
    let own = Seed(&t).deserialize(v.clone()).map_err(|e| e.to_string());
    let rf = Seed(&t).deserialize(&v).map_err(|e| e.to_string());
    cx.seen(&inp, own.is_ok());
    ensure!(own.is_ok() == rf.is_ok() && (own.is_err() || own == rf), inp, "from the owned Value {:?}, from a reference {:?}", own, rf);
    let text = match serde_yaml::to_string(&v) { Ok(t) => t, Err(e) => return fail(format!("to_string failed: {}", e), inp) };
    let tx = read_ty(&text, &t);
    if null_as_empty(&v, &t) { return Ok(()); }
    if let Ok(o) = &own { ensure!(tx.as_ref() == Ok(o), format!("{} text {:?}", inp, text), "from the Value {:?}, from its text {:?}", o, tx); }
    else if let (Ok(_), false) = (&tx, scalar_as_str(&v, &t)) { return fail(format!("from the Value {:?}, from its text {:?}", own, tx), format!("{} text {:?}", inp, text)); }
    Ok(())
}

/// a Value as some other format would hand it over
#[derive(Clone)]
struct Fv<'a>(&'a Value, u8);
impl<'de, 'a> de::IntoDeserializer<'de, de::value::Error> for Fv<'a> { type Deserializer = Self; fn into_deserializer(self) -> Self { self } }
impl<'de, 'a> de::Deserializer<'de> for Fv<'a> {
    type Error = de::value::Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        let k = self.1;
        match self.0 {
            Value::Null => if k & 1 == 0 { v.visit_unit() } else { v.visit_none() },
            Value::Bool(b) => v.visit_bool(*b),
            Value::Number(n) => match (n.as_u64(), n.as_i64(), n.as_f64()) {
                (Some(u), _, _) if k & 1 == 0 && u < 200 => v.visit_u8(u as u8),
                (_, Some(i), _) if k & 2 == 0 => v.visit_i64(i),
                (Some(u), _, _) => v.visit_u64(u),
                (_, Some(i), _) => v.visit_i64(i),
                (_, _, Some(f)) => if k & 1 == 0 && (f as f32) as f64 == f { v.visit_f32(f as f32) } else { v.visit_f64(f) },
                _ => unreachable!(),
            },
            Value::String(s) => match k & 3 { 0 => v.visit_str(s), 1 => v.visit_string(s.clone()), 2 => match (s.chars().next(), s.chars().nth(1)) { (Some(c), None) => v.visit_char(c), _ => v.visit_str(s) }, _ => v.visit_some(Fv(self.0, 0)) },
            Value::Sequence(s) => v.visit_seq(de::value::SeqDeserializer::new(s.iter().map(|x| Fv(x, k)))),
            Value::Mapping(m) => v.visit_map(de::value::MapDeserializer::new(m.iter().map(|(x, y)| (Fv(x, k), Fv(y, k))))),
            Value::Tagged(t) => v.visit_enum(FvEnum(t, k)),
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct FvEnum<'a>(&'a serde_yaml::value::TaggedValue, u8);
impl<'de, 'a> de::EnumAccess<'de> for FvEnum<'a> {
    type Error = de::value::Error; type Variant = Self;
    fn variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<(S::Value, Self), Self::Error> {
        let name = gen::bare(&self.0.tag);
        let x = if self.1 & 1 == 0 { seed.deserialize(de::value::StringDeserializer::new(name))? } else { seed.deserialize(de::value::StrDeserializer::new(&name))? };
        Ok((x, self))
    }
}
impl<'de, 'a> de::VariantAccess<'de> for FvEnum<'a> {
    type Error = de::value::Error;
    fn unit_variant(self) -> Result<(), Self::Error> { Err(de::Error::custom("not a unit")) }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, Self::Error> { seed.deserialize(Fv(&self.0.value, self.1)) }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Self::Error> { Err(de::Error::custom("not a tuple")) }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Self::Error> { Err(de::Error::custom("not a struct")) }
}
/// the library's own types as targets, from Values, from text and from another format
fn c18_own(cx: &mut Cx, r: &mut Rng) -> R {
    use serde_yaml::value::{Mapping, Number, Sequence, TaggedValue};
    let v = gen::value(r, gen::Opts { depth: 2, nested_tags: false, ..gen::FULL });
    if dynty::nested_tag_v(&v, false) || bad_tag(&v) { return Ok(()); }
    let inp = format!("{:?}", v); cx.note(&inp); cx.seen(&inp, true);
    let text = match serde_yaml::to_string(&v) { Ok(t) => t, Err(e) => return fail(format!("to_string failed: {}", e), inp) };
    let k = r.below(4) as u8;
    let mut bare = &v; while let Value::Tagged(t) = bare { bare = &t.value; }
    macro_rules! own { ($t:ty, $wrap:expr, $null:expr, $foreign:expr) => {{
        let f = |x: Result<$t, String>| x.map($wrap);
        let a = f(<$t>::deserialize(v.clone()).map_err(|e| e.to_string())); let b = f(<$t>::deserialize(&v).map_err(|e| e.to_string()));
        let c = f(read::<$t>(&text)); let d = f(<$t>::deserialize(Fv(&v, k)).map_err(|e| e.to_string()));
        let eq = |a: &Result<Value, String>, b: &Result<Value, String>| match (a, b) { (Ok(a), Ok(b)) => same(a, b), (Err(_), Err(_)) => true, _ => false };
        let what = stringify!($t);
        ensure!(eq(&a, &b), inp, "{} from the owned Value {:?}, from a reference {:?}", what, a, b);
        if !($null && bare.is_null()) { ensure!(eq(&a, &c), inp, "{} from the Value {:?}, from its text {:?} {:?}", what, a, text, c); }
        if $foreign { ensure!(eq(&a, &d), inp, "{} from the Value {:?}, from another format {:?}", what, a, d); }
    }} }
    let tagged = matches!(v, Value::Tagged(_));
    let some = k & 3 == 3 && matches!(v, Value::String(_));
    own!(Value, |x| x, false, true);
    own!(Mapping, Value::Mapping, true, !tagged && !(matches!(v, Value::Null) && k & 1 == 1));
    own!(Sequence, Value::Sequence, true, !tagged && !matches!(v, Value::Null));
    own!(Number, Value::Number, false, !some);
    own!(TaggedValue, |t| Value::Tagged(Box::new(t)), false, true);
    own!(Box<Value>, |x| *x, false, true);
    Ok(())
}
/// long collections read in part, at the exact length, or too short
fn c18_long(cx: &mut Cx, r: &mut Rng) -> R {
    let n = gen::biglen(r, 300);
    let k = match r.below(4) { 0 => n, 1 => n.saturating_sub(1), 2 => n + 1, _ => r.below(n + 3) };
    let kv = r.chance(1, 2);
    let v = if kv { Value::Mapping(gen::big_map(r, n)) } else { Value::Sequence(gen::big_seq(r, n)) };
    let v = if r.chance(1, 5) && !kv { let mut m = serde_yaml::Mapping::new(); m.insert("alpha".into(), v); Value::Mapping(m) } else { v };
    let inp = format!("{} of {} of {:?}", k, n, v); cx.note(&inp); cx.seen(&inp, true);
    let text = match serde_yaml::to_string(&v) { Ok(t) => t, Err(e) => return fail(format!("to_string failed: {}", e), inp) };
    let ts: Vec<Ty> = vec![Ty::Any; k];
    let tys = [Ty::Tuple(ts.clone()), Ty::TupleStruct(ts.clone()), Ty::Seq(Box::new(Ty::Any)), Ty::Map(Box::new(Ty::Any), Box::new(Ty::Any)), Ty::Struct(0, vec![Ty::Tuple(ts)], false), Ty::Struct(0, vec![Ty::Seq(Box::new(Ty::Any))], true), Ty::Any];
    for t in &tys {
        let own = Seed(t).deserialize(v.clone()).map_err(|e| e.to_string()); let rf = Seed(t).deserialize(&v).map_err(|e| e.to_string()); let tx = read_ty(&text, t);
        ensure!(own.is_ok() == rf.is_ok() && (own.is_err() || own == rf), inp, "as {:?}: from the owned Value {:?}, from a reference {:?}", t, own, rf);
        ensure!(own.is_ok() == tx.is_ok() && (own.is_err() || own == tx), inp, "as {:?}: from the Value {:?}, from its text {:?}", t, own, tx);
    }
    // a visitor that takes only some of it
    let own = v.clone().deserialize_any(Take(k)).map_err(|e| e.to_string()); let rf = (&v).deserialize_any(Take(k)).map_err(|e| e.to_string()); let tx = Deserializer::from_str(&text).deserialize_any(Take(k)).map_err(|e| e.to_string());
    ensure!(own.as_ref().ok() == rf.as_ref().ok() && own.as_ref().ok() == tx.as_ref().ok(), inp, "taking {}: from the owned Value {:?}, from a reference {:?}, from text {:?}", k, own, rf, tx);
    let own = v.clone().deserialize_any(Log).map(|l| l.0).map_err(|e| e.to_string()); let rf = (&v).deserialize_any(Log).map(|l| l.0).map_err(|e| e.to_string());
    ensure!(match (&own, &rf) { (Ok(a), Ok(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| match (k, l) { (None, None) => true, (Some(a), Some(b)) => same(a, b), _ => false } && same(x, y)), (Err(_), Err(_)) => true, _ => false }, inp, "a visitor sees {:?} in the owned Value, {:?} in a reference", own, rf);
    Ok(())
}
/// is some part of the Value, met by some part of the type, of this kind?
fn somewhere(v: &Value, t: &Ty, leaf: &dyn Fn(&Value, &Ty) -> bool) -> bool {
    if leaf(v, t) { return true; }
    let go = |v: &Value, t: &Ty| somewhere(v, t, leaf);
    match (v, t) {
        (v, Ty::Newtype(t)) => go(v, t),
        (v, Ty::Opt(t)) => !matches!(v, Value::Null) && go(v, t),
        (Value::Tagged(x), Ty::Enum(_, ts)) => ts.iter().any(|u| match u { VTy::Newtype(t) => go(&x.value, t), VTy::Tuple(t) => go(&x.value, &Ty::Tuple(t.clone())), VTy::Struct(b, t) => go(&x.value, &Ty::Struct(*b, t.clone(), false)), _ => false }),
        (Value::Tagged(x), t) => go(&x.value, t),
        (Value::Sequence(s), Ty::Seq(t)) => s.iter().any(|x| go(x, t)),
        (Value::Sequence(s), Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(_, ts, _)) => s.iter().zip(ts).any(|(x, t)| go(x, t)),
        (Value::Mapping(m), Ty::Map(k, t)) => m.iter().any(|(a, x)| go(a, k) || go(x, t)),
        (Value::Mapping(m), Ty::Struct(_, ts, _)) => m.iter().any(|(k, x)| go(k, &Ty::Str) || ts.iter().any(|t| go(x, t))),
        _ => false,
    }
}
/// a Null Value is an empty collection, in text only the empty scalar is
fn null_as_empty(v: &Value, t: &Ty) -> bool { somewhere(v, t, &|v, t| matches!(v, Value::Null) && matches!(t, Ty::Seq(_) | Ty::Map(..) | Ty::Tuple(_) | Ty::TupleStruct(_) | Ty::Struct(..) | Ty::Bytes)) }
/// the text of any plain scalar can be read as a string
fn scalar_as_str(v: &Value, t: &Ty) -> bool { somewhere(v, t, &|v, t| matches!(v, Value::Null | Value::Bool(_) | Value::Number(_)) && matches!(t, Ty::Str | Ty::Char | Ty::Bytes)) }

// ------------------------------------------------------------------ C21
const IND: &[char] = &['-', '?', ':', ',', '[', ']', '{', '}', '#', '&', '*', '!', '|', '>', '\'', '"', '%', '@', '`', ' ', '\n', '\t', 'a', '0', '.', '\\', '<', '~', 'é', '\0', '\u{feff}', '\r'];
fn c21(cx: &mut Cx, i: u64, r: &mut Rng) -> R {
    let raw: Vec<u8> = if i < 900 {
        // every string of length 3 over the indicators, 32 per case, alone and after a prefix
        let a = IND.len() as u64; let k = i % (a * a); let pre = r.s(&["", "- ", "k: ", "[", "{", "? ", "!t ", "&a ", "--- ", "a\n", "- - "]).to_string();
        for c in IND { let s: String = format!("{}{}{}{}", pre, IND[(k / a) as usize], IND[(k % a) as usize], c); total(cx, s.as_bytes(), r)?; }
        return Ok(());
    } else if r.chance(1, 2) { some_bytes(r) } else { some_text(r).into_bytes() };
    if i >= 900 && i % 300 == 5 { return c21_long(cx, r); }
    total(cx, &raw, r)?;
    // serializing anything ends in Ok or Err, and so does everything done with a Value
    let v = gen::value(r, gen::Opts { nested_tags: true, ..gen::FULL }); cx.note(&format!("{:?}", v));
    let s = serde_yaml::to_string(&v); if let Ok(s) = &s { let _ = read::<Value>(s); } else { let e = s.unwrap_err(); let _ = (e.to_string(), format!("{:?}", e), e.location()); }
    let _ = serde_yaml::to_value(&v).map_err(|e| e.to_string());
    let mut m = v.clone(); let _ = m.apply_merge().map_err(|e| e.to_string());
    let t = dynty::ty(r, 2, true); let _ = Seed(&t).deserialize(v.clone()).map_err(|e| e.to_string()); let _ = Seed(&t).deserialize(&v).map_err(|e| e.to_string());
    let _ = format!("{:?} {:?}", v, v.partial_cmp(&m));
    Ok(())
}
/// the same few characters many times over
fn c21_long(cx: &mut Cx, r: &mut Rng) -> R {
    let a = match r.below(3) { 0 => r.s(&["[", "{", "- ", "? ", ": ", "{a: ", "[a, ", "!t ", "&a ", "--- ", "...\n", "\n", "{[", "a: [", "- - ", "|\n", "'", "\"", "#", "*a ", "%", ",", "]", "}", "- [", "? - "]).to_string(), 1 => { let p = IND; (0..r.range(1, 4)).map(|_| *r.pick(p)).collect() } _ => format!("{}\n", r.s(&["- 1", "a: 1", "k: v", "---", "- *a", "&a x", "- &a x", "? a", "- |", " - x"])) };
    let n = gen::biglen(r, 3000);
    let pre = r.s(&["", "", "a: ", "- ", "[", "{"]); let post: String = match r.below(3) { 0 => String::new(), 1 => { let c: String = a.chars().rev().filter_map(|c| match c { '[' => Some(']'), '{' => Some('}'), _ => None }).collect(); c.repeat(n) } _ => gen::string(r) };
    total(cx, format!("{}{}{}", pre, a.repeat(n), post).as_bytes(), r)
}
fn total(cx: &mut Cx, raw: &[u8], r: &mut Rng) -> R {
    cx.note(&format!("{:?}", String::from_utf8_lossy(raw))); cx.seen(&String::from_utf8_lossy(raw), true);
    let show = |e: serde_yaml::Error| { use std::error::Error; let _ = (e.to_string(), format!("{:?} {:#?}", e, e), e.source().map(|s| s.to_string())); e };
    let rs = serde_yaml::from_slice::<Value>(raw).map_err(show);
    if let Ok(v) = rs { let _ = serde_yaml::to_string(&v).map_err(show); let mut v = v; let _ = v.apply_merge().map_err(show); }
    let t = dynty::ty(r, 2, true);
    if let Err(e) = Seed(&t).deserialize(Deserializer::from_slice(raw)) { let e = show(e); let _ = e.location(); }
    let _ = serde_yaml::from_slice::<IgnoredAny>(raw).map_err(show);
    let mut n = 0;
    for d in Deserializer::from_slice(raw) {
        n += 1;
        ensure!(n <= raw.len() + 2, format!("{:?}", raw), "iterating {} bytes yields more than {} documents", raw.len(), n - 1);
        match n % 3 { 0 => { let _ = IgnoredAny::deserialize(d).map_err(show); } 1 => { let _ = Value::deserialize(d).map_err(show); } _ => { let _ = Seed(&t).deserialize(d).map_err(show); } }
    }
    let _ = VARIANTS;
    Ok(())
}
