// One function per library function that the verifier has an assumed contract for; tools/libtest.py runs each on the inputs of its
// pools and asks the verifier what the assumed contracts give for the same input.
pub fn s_trim(s: &str) -> &str { s.trim() }
pub fn s_strip_prefix(s: &str) -> Option<&str> { s.strip_prefix("0x") }
pub fn s_strip_prefix_c(s: &str) -> Option<&str> { s.strip_prefix('!') }
pub fn s_strip_prefix_a(s: &str) -> Option<&str> { s.strip_prefix(['+', '-']) }
pub fn s_strip_prefix_f(s: &str) -> Option<&str> { s.strip_prefix(|c: char| c == '+') }
pub fn s_strip_suffix(s: &str) -> Option<&str> { s.strip_suffix('!') }
pub fn s_starts(s: &str) -> bool { s.starts_with('!') }
pub fn s_starts_a(s: &str) -> bool { s.starts_with(['+', '-']) }
pub fn s_starts_f(s: &str) -> bool { s.starts_with(|c: char| c.is_ascii_digit()) }
pub fn s_starts_m(s: &str) -> bool { s.starts_with(char::is_numeric) }
pub fn s_ends(s: &str) -> bool { s.ends_with("x") }
pub fn s_contains(s: &str) -> bool { s.contains('\n') }
pub fn s_contains_s(s: &str) -> bool { s.contains("ab") }
pub fn s_contains_a(s: &str) -> bool { s.contains(['\n', '\r']) }
pub fn s_contains_f(s: &str) -> bool { s.contains(|c: char| c == '\n' || c == '\t') }
pub fn s_chars_all(s: &str) -> bool { s.chars().all(|c| c.is_ascii_digit()) }
pub fn s_chars_any(s: &str) -> bool { s.chars().any(|c| c == '_') }
pub fn s_bytes_all(s: &str) -> bool { s.bytes().all(|c| c.is_ascii_digit()) }
pub fn s_bytes_all2(s: &str) -> bool { s.bytes().all(|c| matches!(c, b'0'..=b'9' | b'_')) }
pub fn s_asbytes_all(s: &str) -> bool { s.as_bytes().iter().all(u8::is_ascii_digit) }
pub fn s_bytes_any(s: &str) -> bool { s.bytes().any(|c| c == b'.') }
pub fn s_chars_next(s: &str) -> Option<char> { s.chars().next() }
pub fn s_chars_count(s: &str) -> usize { s.chars().count() }
pub fn s_bytes_count(s: &str) -> usize { s.bytes().filter(|b| *b == b'.').count() }
pub fn s_find(s: &str) -> Option<usize> { s.find('.') }
pub fn s_find_s(s: &str) -> Option<usize> { s.find("ab") }
pub fn s_rfind(s: &str) -> Option<usize> { s.rfind('.') }
pub fn s_split_once(s: &str) -> Option<(&str, &str)> { s.split_once('.') }
pub fn s_slice_from(s: &str) -> &str { &s[1..] }
pub fn s_slice_to(s: &str) -> &str { &s[..1] }
pub fn s_get(s: &str) -> Option<&str> { s.get(1..) }
pub fn s_lower(s: &str) -> String { s.to_lowercase() }
pub fn s_alower(s: &str) -> String { s.to_ascii_lowercase() }
pub fn s_eqic(s: &str) -> bool { s.eq_ignore_ascii_case("null") }
pub fn s_lines(s: &str) -> usize { s.lines().count() }
pub fn s_len(s: &str) -> usize { s.len() }
pub fn s_empty(s: &str) -> bool { s.is_empty() }
pub fn s_replace(s: &str) -> String { s.replace('_', "") }
pub fn s_repeat(s: &str) -> String { s.repeat(2) }
pub fn s_parse_i(s: &str) -> Option<i64> { s.parse().ok() }
pub fn s_parse_f(s: &str) -> Option<f64> { s.parse().ok() }
pub fn s_push(mut s: String) -> String { s.push('x'); s }
pub fn s_plus(s: String, t: &str) -> String { s + t }
pub fn s_remove(mut s: String) -> String { s.remove(0); s }
pub fn s_pop(mut s: String) -> String { s.pop(); s }
pub fn s_truncate(mut s: String) -> String { s.truncate(0); s }
pub fn s_clear(mut s: String) -> String { s.clear(); s }
pub fn s_into_bytes(s: String) -> Vec<u8> { s.into_bytes() }
pub fn s_cmp(s: &str, t: &str) -> std::cmp::Ordering { s.cmp(t) }
pub fn s_match(s: &str) -> u8 { match s { "a" | "b" => 1, "c" => 2, _ => 3 } }
pub fn b_first(s: &[u8]) -> Option<u8> { s.first().copied() }
pub fn b_last(s: &[u8]) -> Option<&u8> { s.last() }
pub fn b_split_first(s: &[u8]) -> Option<(&u8, &[u8])> { s.split_first() }
pub fn b_starts(s: &[u8]) -> bool { s.starts_with(b"ab") }
pub fn b_pat(s: &[u8]) -> u8 { match s { [b'+' | b'-', rest @ ..] => rest.len() as u8, [] => 0, _ => 1 } }
pub fn b_pat2(s: &[u8]) -> bool { matches!(s, [b'0', b'x', ..]) }
pub fn b_pat3(s: &[u8]) -> bool { matches!(s, [b'0', .., b'x']) }
pub fn b_eq(s: &[u8]) -> bool { s == b"null" }
pub fn b_get(s: &[u8]) -> Option<&u8> { s.get(1) }
pub fn b_idx(s: &[u8]) -> u8 { if s.len() > 1 { s[1] } else { 0 } }
pub fn b_range(s: &[u8]) -> &[u8] { if s.len() > 1 { &s[1..] } else { s } }
pub fn b_any(s: &[u8]) -> bool { s.iter().any(|b| *b == b'.') }
pub fn b_pos(s: &[u8]) -> Option<usize> { s.iter().position(|b| *b == b'.') }
pub fn b_contains(s: &[u8]) -> bool { s.contains(&b'.') }
pub fn b_to_vec(s: &[u8]) -> Vec<u8> { s.to_vec() }
pub fn o_map(o: Option<u64>) -> Option<u64> { o.map(|x| x / 2) }
pub fn o_and_then(o: Option<u64>) -> Option<u64> { o.and_then(|x| x.checked_add(1)) }
pub fn o_filter(o: Option<u64>) -> Option<u64> { o.filter(|x| *x > 1) }
pub fn o_ok_or(o: Option<u64>) -> Result<u64, u8> { o.ok_or(1) }
pub fn o_ok_or_else(o: Option<u64>) -> Result<u64, u8> { o.ok_or_else(|| 1) }
pub fn o_unwrap_or(o: Option<u64>) -> u64 { o.unwrap_or(1) }
pub fn o_unwrap_or_else(o: Option<u64>) -> u64 { o.unwrap_or_else(|| 1) }
pub fn o_unwrap_def(o: Option<u64>) -> u64 { o.unwrap_or_default() }
pub fn o_map_or(o: Option<u64>) -> bool { o.map_or(false, |x| x > 1) }
pub fn o_map_or_else(o: Option<u64>) -> u64 { o.map_or_else(|| 0, |x| x / 2) }
pub fn o_is_some_and(o: Option<u64>) -> bool { o.is_some_and(|x| x > 1) }
pub fn o_or(o: Option<u64>) -> Option<u64> { o.or(Some(1)) }
pub fn o_or_else(o: Option<u64>) -> Option<u64> { o.or_else(|| Some(1)) }
pub fn o_xor(o: Option<u64>) -> Option<u64> { o.xor(Some(1)) }
pub fn o_zip(o: Option<u64>, p: Option<u8>) -> Option<(u64, u8)> { o.zip(p) }
pub fn o_copied(o: Option<&u64>) -> Option<u64> { o.copied() }
pub fn o_cloned(o: Option<&String>) -> Option<String> { o.cloned() }
pub fn o_is_none_or(o: Option<u64>) -> bool { o.is_none_or(|x| x > 1) }
pub fn o_eq(o: Option<u64>) -> bool { o == Some(3) }
pub fn o_flatten(o: Option<Option<u64>>) -> Option<u64> { o.flatten() }
pub fn r_map(o: Result<u64, u8>) -> Result<u32, u8> { o.map(|x| (x % 7) as u32) }
pub fn r_map_err(o: Result<u64, u8>) -> Result<u64, u16> { o.map_err(u16::from) }
pub fn r_ok(o: Result<u64, u8>) -> Option<u64> { o.ok() }
pub fn r_err(o: Result<u64, u8>) -> Option<u8> { o.err() }
pub fn r_and_then(o: Result<u64, u8>) -> Result<u64, u8> { o.and_then(|x| if x > 1 { Ok(x) } else { Err(1) }) }
pub fn r_or_else(o: Result<u64, u8>) -> Result<u64, u8> { o.or_else(|x| if x > 1 { Ok(1) } else { Err(1) }) }
pub fn r_unwrap_or(o: Result<u64, u8>) -> u64 { o.unwrap_or(1) }
pub fn r_unwrap_or_else(o: Result<u64, u8>) -> u64 { o.unwrap_or_else(|e| u64::from(e)) }
pub fn r_is_ok_and(o: Result<u64, u8>) -> bool { o.is_ok_and(|x| x > 1) }
pub fn i_checked(a: u64, b: u64) -> Option<u64> { a.checked_add(b) }
pub fn i_checked_sub(a: u64, b: u64) -> Option<u64> { a.checked_sub(b) }
pub fn i_checked_mul(a: u64, b: u64) -> Option<u64> { a.checked_mul(b) }
pub fn i_checked_neg(a: i64) -> Option<i64> { a.checked_neg() }
pub fn i_wrapping(a: u64, b: u64) -> u64 { a.wrapping_add(b) }
pub fn i_wrapping_sub(a: u64, b: u64) -> u64 { a.wrapping_sub(b) }
pub fn i_wrapping_neg(a: i64) -> i64 { a.wrapping_neg() }
pub fn i_sat(a: u64, b: u64) -> u64 { a.saturating_sub(b) }
pub fn i_sat_add(a: u64, b: u64) -> u64 { a.saturating_add(b) }
pub fn i_sat_mul(a: u64, b: u64) -> u64 { a.saturating_mul(b) }
pub fn i_over(a: u64, b: u64) -> (u64, bool) { a.overflowing_add(b) }
pub fn i_uabs(a: i64) -> u64 { a.unsigned_abs() }
pub fn i_abs(a: i32) -> i32 { if a > -5 { a.abs() } else { 0 } }
pub fn i_min(a: u64, b: u64) -> u64 { a.min(b) }
pub fn i_max(a: u64, b: u64) -> u64 { std::cmp::max(a, b) }
pub fn i_clamp(a: u64) -> u64 { a.clamp(1, 5) }
pub fn i_try(a: u64) -> Option<i64> { i64::try_from(a).ok() }
pub fn i_try2(a: i64) -> Result<u32, ()> { a.try_into().map_err(|_| ()) }
pub fn i_from(a: u32) -> u64 { u64::from(a) }
pub fn i_as(a: u64) -> i64 { a as i64 }
pub fn i_pow(a: u8) -> u64 { u64::from(a).pow(2) }
pub fn i_shift(a: u64) -> u64 { a >> 3 }
pub fn i_and(a: u64) -> u64 { a & 7 }
pub fn i_rem(a: i64) -> i64 { a % 7 }
pub fn i_neg(a: i64) -> bool { a.is_negative() }
pub fn i_signum(a: i64) -> i64 { a.signum() }
pub fn i_cmp(a: u64, b: u64) -> std::cmp::Ordering { a.cmp(&b) }
pub fn i_tostr(a: u64) -> String { a.to_string() }
pub fn i_range(a: u64) -> bool { (1..5).contains(&a) }
pub fn i_abs_diff(a: u64, b: u64) -> u64 { a.abs_diff(b) }
pub fn i_lz(a: u64) -> u32 { a.leading_zeros() }
pub fn f_nan(a: f64) -> bool { a.is_nan() }
pub fn f_fract(a: f64) -> bool { a.fract() == 0.0 }
pub fn f_trunc(a: f64) -> f64 { a.trunc() }
pub fn f_floor(a: f64) -> f64 { a.floor() }
pub fn f_abs(a: f64) -> f64 { a.abs() }
pub fn f_bits(a: f64) -> u64 { a.to_bits() }
pub fn f_pcmp(a: f64, b: f64) -> Option<std::cmp::Ordering> { a.partial_cmp(&b) }
pub fn f_tcmp(a: f64, b: f64) -> std::cmp::Ordering { a.total_cmp(&b) }
pub fn f_sign(a: f64) -> bool { a.is_sign_negative() }
pub fn f_as(a: f64) -> i64 { a as i64 }
pub fn f_as32(a: f64) -> f32 { a as f32 }
pub fn f_min(a: f64) -> f64 { a.min(1.0) }
pub fn f_eps(a: f64, b: f64) -> bool { (a - b).abs() < f64::EPSILON }
pub fn c_digit(c: char) -> bool { c.is_ascii_digit() }
pub fn c_todigit(c: char) -> Option<u32> { c.to_digit(10) }
pub fn c_alpha(c: char) -> bool { c.is_alphabetic() }
pub fn c_ws(c: char) -> bool { c.is_whitespace() }
pub fn c_ctl(c: char) -> bool { c.is_control() }
pub fn c_as(c: char) -> u32 { c as u32 }
pub fn c_len(c: char) -> usize { c.len_utf8() }
pub fn c_string(c: char) -> String { c.to_string() }
pub fn c_lower(b: u8) -> u8 { b.to_ascii_lowercase() }
pub fn c_hex(b: u8) -> bool { b.is_ascii_hexdigit() }
pub fn c_apunct(b: u8) -> bool { b.is_ascii_punctuation() }
pub fn l_for_range(n: u8) -> u64 { let mut t = 0; for i in 0..3u64 { t += i; } t + u64::from(n) }
pub fn x_chain(s: &str) -> Option<i64> { let t = s.strip_prefix('-')?; t.parse::<i64>().ok()?.checked_neg() }
pub fn o_take(mut o: Option<u64>) -> (Option<u64>, Option<u64>) { let a = o.take(); (a, o) }
pub fn o_replace(mut o: Option<u64>) -> (Option<u64>, Option<u64>) { let a = o.replace(1); (a, o) }
pub fn o_insert(mut o: Option<u64>) -> (u64, Option<u64>) { let a = *o.insert(1); (a, o) }
pub fn o_goi(mut o: Option<u64>) -> (u64, Option<u64>) { let a = *o.get_or_insert(1); (a, o) }
pub fn o_goiw(mut o: Option<u64>) -> (u64, Option<u64>) { let a = *o.get_or_insert_with(|| 1); (a, o) }
pub fn o_and(o: Option<u64>) -> Option<u64> { o.and(Some(4)) }
pub fn o_xor2(o: Option<u64>) -> Option<u64> { o.xor(None) }
pub fn o_tr(o: Option<u64>) -> Result<Option<u64>, u8> { o.map(|x| if x > 1 { Ok(x) } else { Err(3u8) }).transpose() }
pub fn o_flat(o: Option<u64>) -> Option<u64> { o.map(|x| if x > 1 { Some(x) } else { None }).flatten() }
pub fn o_inspect_zip(o: Option<u64>) -> Option<(u64, u64)> { o.zip(o) }
pub fn o_unz(o: Option<u64>) -> bool { o.is_none_or(|x| x == 7) }
pub fn r_map_or(o: Result<u64, u8>) -> u64 { o.map_or(3, |x| x / 2) }
pub fn r_map_or_else(o: Result<u64, u8>) -> u64 { o.map_or_else(u64::from, |x| x / 2) }
pub fn r_iea(o: Result<u64, u8>) -> bool { o.is_err_and(|x| x > 1) }
pub fn r_def(o: Result<u64, u8>) -> u64 { o.unwrap_or_default() }
pub fn r_or(o: Result<u64, u8>) -> Result<u64, u16> { o.or(Err(5)) }
pub fn r_and(o: Result<u64, u8>) -> Result<bool, u8> { o.and(Ok(true)) }
pub fn s_split1(s: &str) -> Option<(&str, &str)> { s.split_once("ab") }
pub fn s_rsplit1(s: &str) -> Option<(&str, &str)> { s.rsplit_once('.') }
pub fn s_split_at(s: &str) -> (&str, &str) { s.split_at(1) }
pub fn s_bound(s: &str) -> bool { s.is_char_boundary(2) }
pub fn s_is_ascii(s: &str) -> bool { s.is_ascii() }
pub fn s_chars_next2(s: &str) -> (Option<char>, Option<char>, String) { let mut c = s.chars(); let a = c.next(); let b = c.next(); (a, b, c.as_str().to_owned()) }
pub fn s_chars_nth(s: &str) -> Option<char> { s.chars().nth(1) }
pub fn s_bytes_next(s: &str) -> (Option<u8>, Option<u8>) { let mut c = s.bytes(); (c.next(), c.next()) }
pub fn s_bytes_last(s: &str) -> Option<u8> { s.bytes().last() }
pub fn s_bytes_len(s: &str) -> usize { s.bytes().len() }
pub fn s_alnum(s: &str) -> bool { s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') }
pub fn s_plus_eq(mut s: String) -> String { s += "q"; s }
pub fn s_insert(mut s: String) -> String { s.insert(0, '!'); s }
pub fn s_trunc1(mut s: String) -> String { s.truncate(1); s }
pub fn s_range(s: &str) -> Option<&str> { s.get(1..2) }
pub fn s_idx2(s: &str) -> &str { &s[1..2] }
pub fn s_radix(s: &str) -> Option<u64> { u64::from_str_radix(s, 16).ok() }
pub fn s_parse_u8(s: &str) -> Option<u8> { s.parse().ok() }
pub fn b_all(s: &[u8]) -> bool { s.iter().all(|b| b.is_ascii_digit()) }
pub fn b_all2(s: &[u8]) -> bool { s.iter().all(u8::is_ascii_digit) }
pub fn b_pat4(s: &[u8]) -> u8 { match s { [a, b, ..] if a == b => 1, [.., b'x'] => 2, [_] => 3, _ => 4 } }
pub fn b_pat5(s: &[u8]) -> usize { if let [b'-', rest @ ..] = s { rest.len() } else { 99 } }
pub fn b_pat6(s: &[u8]) -> bool { matches!(s, [b'+', b'.', _, ..] | [b'a'..=b'f']) }
pub fn b_pat7(s: &[u8]) -> usize { if let [rest @ .., b'x'] = s { rest.len() } else { 99 } }
pub fn b_pat8(s: &[u8]) -> usize { if let [_, mid @ .., b'x'] = s { mid.len() } else { 99 } }
pub fn b_eqic(s: &[u8]) -> bool { s.eq_ignore_ascii_case(b"aB") }
pub fn b_ends(s: &[u8]) -> bool { s.ends_with(b"x") }
pub fn b_extend(s: &[u8]) -> Vec<u8> { let mut v = s.to_vec(); v.extend_from_slice(b"ab"); v.push(b'c'); v }
pub fn b_clear(s: &[u8]) -> Vec<u8> { let mut v = s.to_vec(); v.clear(); v }
pub fn b_vec(x: u8) -> Vec<u8> { vec![x, 1] }
pub fn i_sub_over(a: u64, b: u64) -> (u64, bool) { a.overflowing_sub(b) }
pub fn i_mul_over(a: u64, b: u64) -> (u64, bool) { a.overflowing_mul(b) }
pub fn i_neg_over(a: i64) -> (i64, bool) { a.overflowing_neg() }
pub fn i_abs64(a: i64) -> i64 { a.abs() }
pub fn i_cpow(a: u64) -> Option<u64> { a.checked_pow(3) }
pub fn i_powp(a: u64) -> u64 { a.pow(2) }
pub fn i_deu(a: i64) -> i64 { a.div_euclid(7) }
pub fn i_cdiv(a: i64) -> Option<i64> { a.checked_div(7) }
pub fn i_crem(a: i64) -> Option<i64> { a.checked_rem(7) }
pub fn i_div(a: i64) -> i64 { a / 7 }
pub fn i_shl(a: u64) -> u64 { a << 3 }
pub fn i_shr(a: i64) -> i64 { a >> 3 }
pub fn i_bit(a: u64) -> u64 { a & 16 }
pub fn i_wmul(a: u64, b: u64) -> u64 { a.wrapping_mul(b) }
pub fn i_wsubi(a: i64) -> i64 { a.wrapping_sub(1) }
pub fn i_csubi(a: i64) -> Option<i64> { a.checked_sub(1) }
pub fn i_cabs(a: i64) -> Option<i64> { a.checked_abs() }
pub fn i_wabs(a: i64) -> i64 { a.wrapping_abs() }
pub fn i_ssub(a: i64) -> i64 { a.saturating_sub(5) }
pub fn i_asu8(a: i64) -> u8 { a as u8 }
pub fn i_asi32(a: u64) -> i32 { a as i32 }
pub fn i_asu64(a: i64) -> u64 { a as u64 }
pub fn i_rin(a: u64) -> bool { (1..=7).contains(&a) }
pub fn i_rfr(a: u64) -> bool { (2..).contains(&a) }
pub fn i_rto(a: u64) -> bool { (..7).contains(&a) }
pub fn i_bits() -> u32 { u64::BITS }
pub fn i_tryi(a: u64) -> Option<u8> { u8::try_from(a).ok() }
pub fn i_tryn(a: i64) -> Option<u64> { a.try_into().ok() }
pub fn i_not(a: u64) -> u64 { !a }
pub fn i_noti(a: i64) -> i64 { !a }
pub fn i_addp(a: u64, b: u64) -> u64 { a + b }
pub fn i_mulp(a: u64, b: u64) -> u64 { a * b }
pub fn i_negp(a: i64) -> i64 { -a }
pub fn f_ceil(a: f64) -> f64 { a.ceil() }
pub fn f_round(a: f64) -> f64 { a.round() }
pub fn f_sig(a: f64) -> f64 { a.signum() }
pub fn f_norm(a: f64) -> bool { a.is_normal() }
pub fn f_inf(a: f64) -> bool { a.is_infinite() }
pub fn f_fin(a: f64) -> bool { a.is_finite() }
pub fn f_cs(a: f64) -> f64 { a.copysign(-1.0) }
pub fn f_lt(a: f64, b: f64) -> bool { a < b }
pub fn f_ne(a: f64, b: f64) -> bool { a != b }
pub fn f_r(a: f64) -> bool { (0.0..1.0).contains(&a) }
pub fn f_max() -> f64 { f64::MAX }
pub fn f_class(a: f64) -> u8 { match a.classify() { std::num::FpCategory::Nan => 1, std::num::FpCategory::Zero => 2, std::num::FpCategory::Infinite => 3, std::num::FpCategory::Subnormal => 4, _ => 5 } }
pub fn f_from32(a: f64) -> f64 { f64::from(a as f32) }
pub fn c_dig16(c: char) -> Option<u32> { c.to_digit(16) }
pub fn c_dig36(c: char) -> Option<u32> { c.to_digit(36) }
pub fn c_isd(c: char) -> bool { c.is_digit(8) }
pub fn c_an(c: char) -> bool { c.is_ascii_alphanumeric() }
pub fn c_cl(c: char) -> char { c.to_ascii_lowercase() }
pub fn c_cu(c: char) -> char { c.to_ascii_uppercase() }
pub fn c_gr(c: char) -> bool { c.is_ascii_graphic() }
pub fn c_aw(c: char) -> bool { c.is_ascii_whitespace() }
pub fn c_ac(c: char) -> bool { c.is_ascii_control() }
pub fn c_up(c: char) -> bool { c.is_ascii_uppercase() }
pub fn c_ap(c: char) -> bool { c.is_ascii_punctuation() }
pub fn c_eqi(c: char) -> bool { c.eq_ignore_ascii_case(&'X') }
pub fn l_sum(n: u8) -> u64 { let mut t = 0; for i in 0..4u64 { if i as u8 == n { t += i; } } t }
pub fn l_arr(n: u8) -> bool { [1u8, 5, 7].contains(&n) }
pub fn l_arr2(n: u8) -> Option<usize> { [1u8, 5, 7].iter().position(|x| *x == n) }
pub fn d_sci(s: &str) -> Option<i64> { if let Some(t) = s.strip_prefix("0x") { i64::from_str_radix(t, 16).ok() } else { s.parse().ok() } }
pub fn h_get(k: u64) -> Option<u64> { let mut m = std::collections::BTreeMap::new(); m.insert(1u64, 5u64); m.insert(7, 6); m.get(&k).copied() }
pub fn h_ins(k: u64) -> (Option<u64>, usize) { let mut m = std::collections::BTreeMap::new(); m.insert(1u64, 5u64); let o = m.insert(k, 6); (o, m.len()) }
pub fn h_has(k: u64) -> bool { let mut m = std::collections::HashMap::new(); m.insert(1u64, 5u64); m.contains_key(&k) }
pub fn v_push(x: u64) -> (Option<u64>, usize, Option<u64>) { let mut v = vec![3u64]; v.push(x); let l = v.len(); let a = v.pop(); (a, l, v.last().copied()) }
pub fn v_first(x: u64) -> (Option<u64>, Option<u64>) { let v = vec![x, 9]; (v.first().copied(), v.get(2).copied()) }
pub fn v_idx(x: u64) -> u64 { let v = vec![x, 9]; v[1] }
pub fn v_oob(x: u64) -> u64 { let v = vec![x]; let i = v.len(); v[i] }
pub fn v_lastmut(x: u64) -> Option<u64> { let mut v = vec![1u64, x]; if let Some(l) = v.last_mut() { *l = 8; } v.pop() }
pub fn v_clr(x: u64) -> bool { let mut v = vec![x]; v.clear(); v.is_empty() }
pub fn m_take(mut s: String) -> (String, String) { let a = std::mem::take(&mut s); (a, s) }
pub fn m_repl(mut s: String) -> (String, String) { let a = std::mem::replace(&mut s, String::from("z")); (a, s) }
pub fn m_swap(mut s: String, mut t: String) -> (String, String) { std::mem::swap(&mut s, &mut t); (s, t) }
pub fn fmt1(a: u64, s: &str) -> String { format!("<{}|{}>", a, s) }
pub fn fmt2(a: i64) -> String { a.to_string() }
pub fn fmt3(c: char) -> String { format!("{}{}", c, 'x') }
pub fn u_utf8(s: &[u8]) -> bool { std::str::from_utf8(s).is_ok() }
pub fn cow1(s: &str) -> String { let c = std::borrow::Cow::Borrowed(s); c.into_owned() }
pub fn cow2(s: &str) -> usize { let c: std::borrow::Cow<str> = std::borrow::Cow::Owned(s.to_owned()); c.len() }
