//! Bounded stand-in and failing-input search for the properties of serde_yaml.
//! usage: stand <ID> [--seed N] [--thorough] [--budget SECONDS] [--json FILE] [--only CASE] [--live FILE]
#![allow(deprecated)]
mod dynty;
mod fw;
mod gen;
mod yamlgen;
mod p_scalar;
mod p_value;
mod p_doc;
mod p_ser;

use std::time::Duration;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(120.0);
    let only = opt("--only").and_then(|s| s.parse().ok());
    let thorough = a.iter().any(|x| x == "--thorough");
    let props: Vec<fw::Prop> = p_scalar::props().into_iter().chain(p_value::props()).chain(p_doc::props()).chain(p_ser::props()).collect();
    let id = a.get(1).cloned().unwrap_or_default();
    if let Some(l) = opt("--live") { let _ = fw::LIVE.set(l); }
    fw::quiet_panics();
    let mut code = 0;
    for p in props.iter().filter(|p| id == "all" || p.id == id) {
        let r = fw::run(p, seed, thorough, Duration::from_secs_f64(budget), only, None);
        let q = |s: &str| { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 || (c as u32) > 0x7e => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)); } } c => o.push(c) } } o.push('"'); o };
        let samples: Vec<String> = r.samples.iter().map(|s| q(s)).collect();
        let fail = match &r.fail { None => "null".to_string(), Some((i, f)) => format!("{{\"case\": {}, \"what\": {}, \"input\": {}}}", i, q(&f.what), q(&f.input)) };
        let js = format!("{{\"property\": {}, \"rule\": {}, \"seed\": {}, \"evals\": {}, \"nontrivial\": {}, \"cases\": {}, \"fixed\": {}, \"fixed_done\": {}, \"wall\": {:.3}, \"samples\": [{}], \"fail\": {}}}",
            q(p.id), q(p.rule), seed, r.evals, r.nontrivial, r.cases, p.fixed, r.fixed_done, r.wall, samples.join(", "), fail);
        match opt("--json") { Some(f) if id != "all" => { std::fs::write(f, &js).unwrap(); } _ => {} }
        println!("{} cases={} evals={} nontrivial={} wall={:.2}", p.id, r.cases, r.evals, r.nontrivial, r.wall);
        if let Some((i, f)) = &r.fail { println!("  FAIL case {}: {}\n  input: {}", i, f.what, f.input.escape_debug()); code = 1; }
    }
    std::process::exit(code);
}
