//! Generators shared by the properties.
use crate::fw::Rng;
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Number, Value};

pub const TRICKY: &[&str] = &[
    "", "~", "null", "Null", "NULL", "nULL", "true", "True", "TRUE", "false", "False", "FALSE", "tRUE", "yes", "no", "on", "off", "y", "n", "Y", "N", "Yes", "NO", "On",
    "0", "-0", "+0", "1", "-1", "+1", "00", "01", "-01", "+01", "007", "0.0", "00.0", "1.", ".5", "-.5", "+.5", "1e3", "1E3", "1e+3", "1e-3", "1.5e3", "e3", "1e", "1_000", "12e03", "0e0", "-0.0", "+0.0",
    "0x", "0x0", "0x1F", "0xff", "0xG", "-0x1F", "+0x1F", "0X1F", "0o", "0o7", "0o17", "-0o17", "+0o17", "0o8", "0b", "0b101", "-0b1", "+0b1", "0b2", "0x+1", "0x-1", "-0x-1", "-0x+1", "0o+1", "0b-1", "+-1", "-+1", "++1", "--1", "+", "0_1",
    "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "9223372036854775807", "9223372036854775808",
    "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729",
    "0xffffffffffffffff", "0x10000000000000000", "-0x8000000000000000", "-0x8000000000000001", "0o1777777777777777777777", "0b1111111111111111111111111111111111111111111111111111111111111111",
    ".inf", ".Inf", ".INF", "-.inf", "-.Inf", "-.INF", "+.inf", "+.Inf", "+.INF", "++.inf", "-+.inf", ".iNF", "inf", "-inf", "Infinity", ".nan", ".NaN", ".NAN", ".Nan", "-.nan", "+.nan", "nan", "NaN", "1e400", "-1e400", "1e-400", "infinity", "+inf", "1.0.0", "1:30", "12:30:45", "2020-01-01", "0.1", "123456789.123456789", "1e5", "9007199254740993", "1.7976931348623157e308", "5e-324", "4.9e-325",
    "<<", "=", "!", "!a", "&a", "*a", "#", "# a", "a #b", "a# b", ":", ": a", "a:", "a: b", "a:b", "?", "? a", "?a", "-", "- a", "-a", "--", "---", "...", "--- a", "... a", "....", "----", "%", "%YAML 1.2", "@", "`", "|", ">", "|a", ">-", "'", "''", "\"", "\"\"", "'a'", "\"a\"", "a'b", "a\"b", "[", "]", "[]", "{", "}", "{}", "[a", "a]", "{a: b}", "a,b", ",", "a, b", "\\", "a\\b", "\\n",
    " ", "  ", " a", "a ", " a ", "a  b", "\t", "\ta", "a\t", "a\tb", "\n", "\n\n", "a\n", "\na", "a\nb", "a\n\nb", "a\n\n", "\n a", " \n", " \na", "a\n b", "a \nb", "a\n \nb", "  a\nb", "\ta\nb", "a\n\tb", "a\n#b", "#a\nb", "a\n...\nb", "a\n---\nb", "---\na", "...\n", "- a\n- b", "a: b\nc: d", "a\n\n\nb\n\n\n", "\r", "a\rb", "\r\n", "a\r\nb", "\u{85}", "a\u{85}b", "\u{2028}", "a\u{2028}b", "\u{2029}", "\u{feff}", "\u{feff}a", "a\u{feff}b", "\n\u{feff}", "\u{0}", "a\u{0}b", "\u{7}", "\u{1b}", "\u{7f}", "\u{80}", "\u{9f}", "\u{a0}", "\u{d7ff}", "\u{e000}", "\u{fffd}", "\u{fffe}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{1f600}", "é", "日本語", "a\u{300}", "\u{1}\n", "\n\u{1}", "x\u{85}\n", "\u{a0}\n", "é\nb", "\u{1f600}\n\u{1f600}",
    "Alpha", "alpha", "x", "abc", "hello world", "a b c", "key", "k", "foo", "bar",
];

pub fn chars_pool() -> Vec<char> {
    " \t\n\r#:,-?[]{}&*!|>'\"%@`~=+.0123456789abcdefoxXinfNaNtrueTRUEyYe_<>\\/\u{85}\u{2028}\u{feff}é日\u{1f600}\u{0}\u{7f}\u{a0}".chars().collect()
}

/// a string: from the list, mutated from it, or random
pub fn string(r: &mut Rng) -> String {
    match r.below(10) {
        0..=3 => r.pick(TRICKY).to_string(),
        4 | 5 => mutate(r.s(TRICKY), r),
        6 => { let a = r.pick(TRICKY).to_string(); let sep = r.pick(&["", " ", "\n", ": ", " #", "\n  ", "-", ","]).to_string(); a + &sep + *r.pick(TRICKY) }
        7 => { let n = r.below(6); let p = chars_pool(); (0..n).map(|_| *r.pick(&p)).collect() }
        8 if r.chance(1, 60) => long_string(r, 5000),
        8 => { let n = if r.chance(1, 6) { r.range(60, 300) } else { r.below(24) }; let p = chars_pool(); (0..n).map(|_| *r.pick(&p)).collect() }
        _ => { let n = r.below(8); (0..n).map(|_| any_char(r)).collect() }
    }
}
pub fn mutate(s: &str, r: &mut Rng) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let p = chars_pool();
    for _ in 0..r.range(1, 2) {
        match r.below(4) {
            0 => { let i = r.below(v.len() + 1); v.insert(i, *r.pick(&p)); }
            1 if !v.is_empty() => { let i = r.below(v.len()); v.remove(i); }
            2 if !v.is_empty() => { let i = r.below(v.len()); v[i] = *r.pick(&p); }
            _ if v.len() >= 2 => { let i = r.below(v.len() - 1); v.swap(i, i + 1); }
            _ => {}
        }
    }
    v.into_iter().collect()
}
pub fn any_char(r: &mut Rng) -> char {
    loop {
        let m = match r.below(5) { 0 => 0x80, 1 => 0x100, 2 => 0x3000, 3 => 0x10000, _ => 0x110000 };
        if let Some(c) = char::from_u32(r.below(m) as u32) { return c; }
    }
}
pub fn word(r: &mut Rng) -> String {
    r.pick(&["a", "b", "c", "k", "key", "foo", "bar", "x1", "alpha", "zz", "q"]).to_string()
}

pub fn float(r: &mut Rng) -> f64 {
    match r.below(9) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e15, 1e16, 1e17, 123456789.0, 9007199254740992.0, 9007199254740994.0, 18446744073709551616.0, -9223372036854775808.0, 1e300, 1e-300]),
        1 => r.below(1000) as f64,
        2 => r.below(1000) as f64 / 8.0,
        3 => f64::from_bits(r.next() & 0x800fffffffffffff),
        4 => (r.next() as i64 as f64) * 0.5,
        5 => f32::from_bits(r.next() as u32) as f64,
        _ => f64::from_bits(r.next()),
    }
}
pub fn u64v(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => *r.pick(&[0, 1, 2, 9, 10, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, i64::MAX as u64 - 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX, 1 << 53, (1 << 53) + 1]),
        1 => 1u64.checked_shl(r.below(64) as u32).unwrap().wrapping_add(r.below(5) as u64).wrapping_sub(2),
        2 => r.below(300) as u64,
        3 => r.next() >> r.below(64),
        _ => r.next(),
    }
}
pub fn i64v(r: &mut Rng) -> i64 {
    match r.below(3) {
        0 => *r.pick(&[0, -1, 1, -128, -129, 127, 128, -32768, -32769, i32::MIN as i64, i32::MIN as i64 - 1, i64::MIN, i64::MIN + 1, i64::MAX]),
        1 => (u64v(r) as i64).wrapping_neg(),
        _ => u64v(r) as i64,
    }
}
pub fn i128v(r: &mut Rng) -> i128 {
    match r.below(4) {
        0 => i64v(r) as i128 + r.below(5) as i128 - 2,
        1 => u64v(r) as i128 + r.below(5) as i128 - 2,
        2 => *r.pick(&[i128::MIN, i128::MIN + 1, i128::MAX, i128::MAX - 1, 1 << 64, (1 << 64) - 1, -(1 << 63), -(1 << 63) - 1, 0]),
        _ => (((r.next() as u128) << 64 | r.next() as u128) as i128) >> r.below(128),
    }
}
pub fn u128v(r: &mut Rng) -> u128 {
    match r.below(3) {
        0 => u64v(r) as u128 + r.below(5) as u128,
        1 => *r.pick(&[u128::MAX, u128::MAX - 1, 1 << 64, (1 << 64) - 1, 1 << 127, 0]),
        _ => ((r.next() as u128) << 64 | r.next() as u128) >> r.below(128),
    }
}
pub fn number(r: &mut Rng) -> Number {
    match r.below(3) { 0 => u64v(r).into(), 1 => i64v(r).into(), _ => float(r).into() }
}

/// a tag name that YAML text can carry (letters; exotic ones are exercised separately)
pub fn tagname(r: &mut Rng) -> String {
    let base = r.pick(&["a", "b", "Thing", "x-y", "a1", "int", "str", "null", "A_b", "é", "a b", "%41", "a.b", "q/r", "Alpha", "Beta", "!", "a!b", "<x>", "a:b", "#t", "\"q\""]).to_string();
    if r.chance(1, 4) && base != "!" { format!("!{}", base) } else { base }
}

#[derive(Clone, Copy)]
pub struct Opts { pub tags: bool, pub nested_tags: bool, pub strings: bool, pub maxlen: usize, pub depth: usize }
pub const FULL: Opts = Opts { tags: true, nested_tags: false, strings: true, maxlen: 4, depth: 4 };

pub fn leaf(r: &mut Rng, o: Opts) -> Value {
    match r.below(8) {
        0 => Value::Null,
        1 => Value::Bool(r.chance(1, 2)),
        2 | 3 => Value::Number(number(r)),
        _ => Value::String(if o.strings { string(r) } else { word(r) }),
    }
}
pub fn value(r: &mut Rng, o: Opts) -> Value { value_d(r, o, o.depth, false) }
fn value_d(r: &mut Rng, o: Opts, d: usize, in_tag: bool) -> Value {
    if d == 0 { return leaf(r, o); }
    match r.below(if o.tags && (!in_tag || o.nested_tags) { 8 } else { 7 }) {
        0..=2 => leaf(r, o),
        3 | 4 if d == 1 && r.chance(1, 150) => { let n = biglen(r, 130); if r.chance(1, 2) { Value::Sequence(big_seq(r, n)) } else { Value::Mapping(big_map(r, n)) } }
        3 | 4 => { let n = r.below(o.maxlen + 1); Value::Sequence((0..n).map(|_| value_d(r, o, d - 1, false)).collect()) }
        5 | 6 => {
            let n = if r.chance(1, 3) { 1 } else { r.below(o.maxlen + 1) };
            let mut m = Mapping::new();
            for _ in 0..n {
                let k = if r.chance(1, 5) { value_d(r, o, d - 1, false) } else if r.chance(1, 5) { leaf(r, o) } else { Value::String(if o.strings && r.chance(1, 2) { string(r) } else { word(r) }) };
                m.insert(k, value_d(r, o, d - 1, false));
            }
            Value::Mapping(m)
        }
        _ => Value::Tagged(Box::new(TaggedValue { tag: Tag::new(tagname(r)), value: value_d(r, o, d - 1, true) })),
    }
}

/// bitwise comparison: like ==, but floats by bits (every NaN alike), order of entries significant
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::Number(x), Value::Number(y)) => same_num(x, y),
        (Value::String(x), Value::String(y)) => x == y,
        (Value::Sequence(x), Value::Sequence(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (Value::Mapping(x), Value::Mapping(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|((p, v), (q, w))| same(p, q) && same(v, w)),
        (Value::Tagged(x), Value::Tagged(y)) => bare(&x.tag) == bare(&y.tag) && same(&x.value, &y.value),
        _ => false,
    }
}
pub fn bare(t: &Tag) -> String {
    let s = t.to_string();
    s.strip_prefix('!').unwrap_or(&s).to_string()
}
pub fn same_num(x: &Number, y: &Number) -> bool {
    if x.is_f64() != y.is_f64() { return false; }
    if x.is_f64() {
        let (a, b) = (x.as_f64().unwrap(), y.as_f64().unwrap());
        a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
    } else { x.as_u64() == y.as_u64() && x.as_i64() == y.as_i64() }
}
pub fn esc(s: &str) -> String { format!("{:?}", s) }

/// n distinct keys of one of several shapes
pub fn keys(r: &mut Rng, n: usize) -> Vec<Value> {
    let style = r.below(8);
    let base = r.below(1000);
    (0..n).map(|i| { let j = base + i; match style {
        0 => Value::from(j as u64), 1 => Value::from(-1 - j as i64), 2 => format!("k{}", j).into(), 3 => Value::from(j as f64 + 0.5), 4 => format!("{:06}x", j).into(),
        5 => format!("{}{}", "long-common-prefix-".repeat(3), j).into(), 6 => format!("{}-common-suffix", j).into(),
        _ => match i % 4 { 0 => Value::from(j as u64), 1 => format!("k{}", j).into(), 2 => Value::from(j as f64 + 0.25), _ => Value::Sequence(vec![(j as u64).into()]) } } }).collect()
}
pub fn shuffle<T>(r: &mut Rng, v: &mut Vec<T>) { for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); } }
/// a mapping of n entries with simple values
pub fn big_map(r: &mut Rng, n: usize) -> Mapping {
    let mut k = keys(r, n); if r.chance(1, 2) { shuffle(r, &mut k); }
    let mixed = r.chance(1, 3);
    k.into_iter().enumerate().map(|(i, k)| (k, if mixed { leaf(r, Opts { strings: false, ..FULL }) } else { Value::from(i as u64) })).collect()
}
pub fn big_seq(r: &mut Rng, n: usize) -> Vec<Value> { let mixed = r.chance(1, 3); (0..n).map(|i| if mixed { leaf(r, Opts { strings: false, ..FULL }) } else { Value::from(i as u64) }).collect() }
/// lengths at which something might change: powers of two and round numbers, and anything between
pub fn biglen(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(3) { 0 => *r.pick(&[8, 9, 10, 15, 16, 17, 20, 24, 31, 32, 33, 48, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]), 1 => r.range(5, 70), _ => r.range(5, max.max(6)) };
    n.min(max)
}
/// a long string: filler with special characters, some of them near buffer boundaries
pub fn long_string(r: &mut Rng, max: usize) -> String {
    let n = match r.below(3) { 0 => *r.pick(&[127, 128, 129, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537]), 1 => r.range(100, 3000), _ => r.range(100, max) }.min(max);
    let fill = r.s(&["a", "ab ", "word ", "x y\n", "é", "\u{1f600}", "\n", " ", "\"", "'", "a: b ", "0", "\t", "line\n", "\u{feff}", "\u{85}", "\\"]);
    let mut s = String::with_capacity(n + 8);
    while s.len() < n { s.push_str(fill); if r.chance(1, 1500) { s.push_str(&string(r)); } if r.chance(1, 200) { s.push(any_char(r)); } }
    if r.chance(1, 2) { s.push_str(r.s(&["\n", "", " ", "z", "é", "\n\n", ":", "#"])); }
    s
}
