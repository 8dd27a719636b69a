"""Compare the assumed library contracts (mirvc/lib*.py) with the real functions.

  python3 tools/libtest.py [SUBSTR]

Every function of libtest/probe.rs is compiled and run on the inputs of its types' pools; the verifier then executes the function's
MIR on the same input, with the assumed contracts for everything std, and has to derive the same outcome (or say that it does not know)."""
import os, sys, re, subprocess, shutil, itertools, struct, signal, json
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
W = os.path.join(VERIF, "build", "libtest")
VENV = "/opt/veriftools/pyvenv/bin/python3"
if sys.executable != VENV: os.execv(VENV, [VENV] + sys.argv)
os.environ["VERIF_NOVENV"] = "1"
os.makedirs(W + "/b", exist_ok=True)
os.environ["VERIF_REPO"] = W
sys.path[:0] = [os.path.join(VERIF, "mirvc"), VERIF]
import check
check.BUILD = W + "/b"
import z3, layer_a, engine
from vc import *
from vc import BOOL

STRS = [b"", b"a", b"ab", b"0x1f", b"-12", b"+7", b"1.5.2", b"null", b"NULL", b"xab.abx", b"a\nb", b"__", b"!t", b"99", b"300", b"\xc3\xa9", b"a\xc3\xa9", b"\xe4\xb8\xadx", b"x", b"b", b"c", b"18446744073709551616", b"A-9z", b" \t"]
BYTES = [b"", b"a", b"x", b"-", b"-x", b"0x", b"0ax", b"aab", b"Ab", b"aB", b"+.5", b"null", b"12", b"1.2", b"ab", b"\xff", b"\xc3\xa9", b"f", b".", b"axx"]
NUMS = {"u8": [0, 1, 2, 3, 5, 9, 32, 44, 48, 65, 95, 97, 122, 127, 128, 255], "u32": [0, 1, 77, 2**32 - 1], "u64": [0, 1, 2, 5, 6, 7, 8, 16, 31, 255, 256, 2**31, 2**32, 2**63 - 1, 2**63, 2**64 - 1],
        "i64": [0, 1, -1, 6, 7, -7, -8, 127, 128, 255, -128, -129, 2**31, -2**31 - 1, 2**63 - 1, -2**63], "i32": [0, 1, -1, -4, -6, 2**31 - 1, -2**31]}
CHARS = [0, 9, 10, 11, 12, 13, 31, 32, 33, 47, 48, 55, 56, 57, 58, 64, 65, 70, 71, 88, 90, 91, 96, 97, 102, 103, 120, 122, 123, 126, 127, 128, 0x85, 0xA0, 0xE9, 0x7FF, 0x800, 0x2003, 0x3000, 0xFFFF, 0x10000, 0x10FFFF]
F = ["0.0", "-0.0", "1.0", "-1.5", "0.5", "2.5", "-2.5", "3.7", "1e300", "5e-324", "-1e-310", "f64::INFINITY", "f64::NEG_INFINITY", "f64::NAN", "0.1", "9007199254740993.0"]

def split_params(s):
    return [p.split(": ", 1)[1] for p in split_top(s) if p.strip()]

from mir import split_top
def pool(t):
    """[(Rust expression, maker of the verifier's value)]"""
    bs = lambda b: "".join("\\x%02x" % x for x in b)
    if t == "&str" or t == "String":
        conv = (lambda e: e) if t == "&str" else (lambda e: e + ".to_owned()")
        return [(conv("st(b\"%s\")" % bs(b)), lambda run, b=b: S(b)) for b in STRS]
    if t == "&[u8]":
        return [("&b\"%s\"[..]" % bs(b), lambda run, b=b: S(b)) for b in BYTES]
    if t in NUMS:
        return [("%d%s" % (n, t) if n >= 0 else "(%d%s)" % (n, t), lambda run, n=n: z3.IntVal(n)) for n in NUMS[t]]
    if t == "bool":
        return [("true", lambda run: z3.BoolVal(True)), ("false", lambda run: z3.BoolVal(False))]
    if t == "char":
        return [("ch(%d)" % n, lambda run, n=n: z3.IntVal(n)) for n in CHARS]
    if t == "f64":
        def mk(run, e):
            v = {"f64::INFINITY": "inf", "f64::NEG_INFINITY": "-inf", "f64::NAN": "nan"}.get(e, e)
            return z3.FPVal(float(v), F64)
        return [("(%s)" % e, lambda run, e=e: mk(run, e)) for e in F]
    m = re.fullmatch(r"Option<(.*)>", t)
    if m:
        full = "std::option::Option<%s>" % full_ty(m.group(1))
        return [("None", lambda run: Adt(full, "None", []))] + [("Some(%s)" % e, lambda run, f=f: Adt(full, "Some", [f(run)])) for e, f in pool(m.group(1))]
    m = re.fullmatch(r"&(u64|String)", t)
    if m:
        inner = m.group(1)
        def ref(run, f):
            return run.mkref(f(run), "shared", full_ty(inner))
        return [("&" + e, lambda run, f=f: ref(run, f)) for e, f in pool(inner)]
    m = re.fullmatch(r"Result<(.*), (.*)>", t)
    if m:
        full = "std::result::Result<%s, %s>" % (full_ty(m.group(1)), full_ty(m.group(2)))
        return [("Ok(%s)" % e, lambda run, f=f: Adt(full, "Ok", [f(run)])) for e, f in pool(m.group(1))] + [("Err(%s)" % e, lambda run, f=f: Adt(full, "Err", [f(run)])) for e, f in pool(m.group(2))]
    return None

def full_ty(t):
    t = re.sub(r"\bString\b", "std::string::String", t)
    t = re.sub(r"(?<!:)\bOption<", "std::option::Option<", t)
    t = re.sub(r"(?<!:)\bResult<", "std::result::Result<", t)
    t = re.sub(r"(?<!:)\bVec<", "std::vec::Vec<", t)
    return t

RUNNER = r'''
#![allow(unused)]
use serde_yaml::probe::*;
fn st(b: &'static [u8]) -> &'static str { std::str::from_utf8(b).unwrap() }
fn ch(n: u32) -> char { char::from_u32(n).unwrap() }
trait Show { fn show(&self) -> String; }
macro_rules! ints { ($($t:ty)*) => { $(impl Show for $t { fn show(&self) -> String { format!("[\"int\",{}]", self) } })* } }
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
impl Show for char { fn show(&self) -> String { format!("[\"int\",{}]", *self as u32) } }
impl Show for bool { fn show(&self) -> String { format!("[\"bool\",{}]", self) } }
impl Show for () { fn show(&self) -> String { "[\"unit\"]".to_owned() } }
impl Show for f64 { fn show(&self) -> String { format!("[\"f64\",{}]", self.to_bits()) } }
impl Show for f32 { fn show(&self) -> String { format!("[\"f32\",{}]", self.to_bits()) } }
impl Show for str { fn show(&self) -> String { self.as_bytes().show() } }
impl Show for [u8] { fn show(&self) -> String { format!("[\"str\",\"{}\"]", self.iter().map(|b| format!("{:02x}", b)).collect::<String>()) } }
impl Show for Vec<u8> { fn show(&self) -> String { self[..].show() } }
impl Show for String { fn show(&self) -> String { self.as_str().show() } }
impl<T: Show + ?Sized> Show for &T { fn show(&self) -> String { (**self).show() } }
impl<T: Show> Show for Option<T> { fn show(&self) -> String { match self { None => "[\"var\",\"None\"]".to_owned(), Some(x) => format!("[\"var\",\"Some\",{}]", x.show()) } } }
impl<T: Show, E: Show> Show for Result<T, E> { fn show(&self) -> String { match self { Err(x) => format!("[\"var\",\"Err\",{}]", x.show()), Ok(x) => format!("[\"var\",\"Ok\",{}]", x.show()) } } }
impl<A: Show, B: Show> Show for (A, B) { fn show(&self) -> String { format!("[\"tup\",{},{}]", self.0.show(), self.1.show()) } }
impl<A: Show, B: Show, C: Show> Show for (A, B, C) { fn show(&self) -> String { format!("[\"tup\",{},{},{}]", self.0.show(), self.1.show(), self.2.show()) } }
impl Show for std::cmp::Ordering { fn show(&self) -> String { format!("[\"var\",\"{:?}\"]", self) } }
fn go<T: Show>(name: &str, i: usize, f: impl FnOnce() -> T + std::panic::UnwindSafe) {
    match std::panic::catch_unwind(f) { Ok(r) => println!("[\"{}\",{},{}]", name, i, r.show()), Err(_) => println!("[\"{}\",{},[\"panic\"]]", name, i) }
}
fn main() { std::panic::set_hook(Box::new(|_| {})); BODY }
'''

def expect(run, v, ty, e):
    """z3: the verifier's value v (of type ty) is the outcome e"""
    while isinstance(v, Ref): v = run.load(v.cell, v.path); ty = re.sub(r"^&(mut )?('\w+ )?", "", ty)
    k = e[0]
    if k == "unit": return z3.BoolVal(True)
    if k == "int": return v == e[1]
    if k == "bool": return v == z3.BoolVal(e[1])
    if k in ("f64", "f32"):
        x = struct.unpack("<d", struct.pack("<Q", e[1]))[0] if k == "f64" else struct.unpack("<f", struct.pack("<I", e[1]))[0]
        w = z3.FPVal(x, F64 if k == "f64" else z3.Float32())
        return z3.fpIsNaN(v) if x != x else v == w
    if k == "str":
        w = bytes.fromhex(e[1])
        return v == S(w)
    if k == "tup":
        ts = split_top(full_ty(ty)[1:-1])
        return z3.And([expect(run, run.field(v, None, i, full_ty(ts[i])), ts[i], x) for i, x in enumerate(e[1:])])
    if k == "var":
        if run.case(v) != e[1]: return z3.BoolVal(False)
        if len(e) == 2: return z3.BoolVal(True)
        a = split_top(re.search(r"<(.*)>$", ty).group(1))
        t = full_ty(a[1] if e[1] == "Err" else a[0])
        return expect(run, run.field(v, e[1], 0, t), t, e[2])
    raise ValueError(e)

def run_contract(prog, reg, f, c, e, r, negated):
    E = engine.Engine(prog, reg.by_key, obl_ms=3000, max_time=10); E.mir_text = layer_a.STATE["mir_text"]
    k = E.key_of(f)
    def post(sc, res, mem, *a):
        sc.run.mem = dict(mem)
        if e[0] == "panic": return [("panics", z3.BoolVal(negated))]
        x = expect(sc.run, res, r, e)
        return [("outcome", z3.Not(x) if negated else x)]
    con = engine.Contract(k, None, name=k, panics=negated != (e[0] == "panic"), post=post, args=lambda run, args: [mk(run) for _, mk in c])
    con.is_lemma = False; con.assumed = False
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(layer_a.Timeout())); signal.alarm(20)
    try: x = E.verify(con)
    except BaseException as ex: x = dict(status="err", detail=repr(ex))
    signal.alarm(0)
    return x, bool(E.opaque_ext) or any(q.get("imprecise") for q in x.get("failed", []))

def main():
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    for d in ("src", "examples"):
        shutil.rmtree(os.path.join(W, d), ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(W, "src"))
    for f in ("Cargo.toml", "Cargo.lock"):
        if os.path.exists(os.path.join(REPO, f)): shutil.copy(os.path.join(REPO, f), W)
    cargo = open(os.path.join(W, "Cargo.toml")).read()
    open(os.path.join(W, "Cargo.toml"), "w").write(re.sub(r"\[workspace\][^\[]*", "", cargo) + "\n[workspace]\n")
    src = open(os.path.join(HERE, "libtest", "probe.rs")).read()
    sig = []
    for m in re.finditer(r"^pub fn (\w+)\((.*?)\) -> ([^{]*?) \{", src, re.M):
        sig.append((m.group(1), split_params(m.group(2)), m.group(3)))
    open(os.path.join(W, "src", "probe.rs"), "w").write("#![allow(missing_docs, dead_code, clippy::all)]\n" + src)
    with open(os.path.join(W, "src", "lib.rs"), "a") as f: f.write("\n#[allow(missing_docs)]\npub mod probe;\n")
    body, cases = [], {}
    for n, ps, r in sig:
        pools = [pool(p) for p in ps]
        if any(p is None for p in pools):
            print("no inputs for", n, ps); continue
        cs = list(itertools.product(*pools))
        cases[n] = cs
        for i, c in enumerate(cs):
            body.append("go(\"%s\", %d, || %s(%s));" % (n, i, n, ", ".join(e for e, _ in c)))
    os.makedirs(os.path.join(W, "examples"), exist_ok=True)
    fns, B = [], 400
    for k in range(0, len(body), B): fns.append("fn p%d() { %s }" % (k, "\n".join(body[k:k + B])))
    open(os.path.join(W, "examples", "run.rs"), "w").write(RUNNER.replace("BODY", "".join("p%d();" % k for k in range(0, len(body), B))) + "\n".join(fns))
    out = subprocess.run(["cargo", "+1.88.0", "run", "-q", "--offline", "--example", "run"], cwd=W, capture_output=True, text=True)
    if out.returncode: sys.exit("build: " + out.stderr[-3000:])
    want = {}
    for l in out.stdout.splitlines():
        n, i, e = json.loads(l); want[n, i] = e
    prog, reg = layer_a.setup(check.build_mir(check.tree_hash()), W)
    agree = unknown = 0
    bad, unk = [], {}
    for n, ps, r in sig:
        if pat not in n or n not in cases: continue
        f = [f for f in prog.all if f.kind == "fn" and f.name == "probe::" + n][0]
        cs = cases[n]
        step = max(1, len(cs) // 60)
        for i in range(0, len(cs), step):
            c, e = cs[i], want[n, i]
            x, imprecise = run_contract(prog, reg, f, c, e, r, False)
            if x["status"] == "ok" or (e[0] == "panic" and x["status"] == "vacuous"): agree += 1
            elif x["status"] in ("unsupported", "undischarged", "err") or imprecise:
                unknown += 1; unk.setdefault(n, [0, ""]); unk[n][0] += 1; unk[n][1] = str(x.get("detail"))[:100]
            else:
                y, _ = run_contract(prog, reg, f, c, e, r, True)        # is the real outcome excluded, or just one of several?
                if y["status"] == "ok": bad.append((n, [a for a, _ in c], e))
                else: unknown += 1; unk.setdefault(n, [0, "left open"]); unk[n][0] += 1
    for n, (k, d) in unk.items(): print("not known: %-14s %3d %s" % (n, k, d))
    for b in bad[:60]: print("DISAGREE", *map(str, b))
    print("%d inputs of %d functions: %d agree, %d not decided by the contracts, %d disagree" % (agree + unknown + len(bad), len([n for n in cases if pat in n]), agree, unknown, len(bad)))
    return 1 if bad else 0

sys.exit(main())
