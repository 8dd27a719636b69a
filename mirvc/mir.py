"""Reader for the textual MIR that rustc emits (--emit=mir -Zmir-opt-level=0
-Ztrim-diagnostic-paths=no) and for the bits of the source text MIR does not
carry (enum variant order, impl headers, generic parameter names)."""
import os, re

class MirError(Exception):
    pass

# ---------------------------------------------------------------- types
def norm_ty(s):
    """Erase lifetimes from a printed type / path."""
    s = s.strip()
    s = re.sub(r"for<[^<>]*>\s*", "", s)
    s = re.sub(r"'(?:_|[a-z][a-z0-9_]*)\b(?!')\s*,?\s*", "", s)
    s = re.sub(r"::<\s*>", "", s)
    s = re.sub(r"<\s*>", "", s)
    s = re.sub(r",\s*>", ">", s)
    s = s.replace("&mut  ", "&mut ").replace("& ", "&")
    return fold_local(s.strip()) if " as " in s else s.strip()

def fold_local(s):
    """<T as Trait>::method::Local (a type declared inside a method) -> Local"""
    i = 0
    while True:
        i = s.find("<", i)
        if i < 0:
            return s
        try:
            j = match_close(s, i)
        except MirError:
            return s
        m = re.match(r"::[a-z_]\w*::([A-Z]\w*)", s[j + 1:])
        if m and len(split_top(s[i + 1:j], " as ")) == 2:
            s = s[:i] + m.group(1) + s[j + 1 + m.end():]
        else:
            i += 1

OPEN = {"(": ")", "[": "]", "{": "}", "<": ">"}

def split_top(s, sep=","):
    """Split at top-level separators, aware of nesting, strings and ->."""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            cur.append(s[i:j + 1]); i = j + 1; continue
        if c == "'":
            m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\.|[^\\'])'", s[i:])
            if m:
                cur.append(m.group(0)); i += len(m.group(0)); continue
        if c == "-" and s[i:i + 2] == "->":
            cur.append("->"); i += 2; continue
        if c == "=" and s[i:i + 2] == "=>":
            cur.append("=>"); i += 2; continue
        if c in "([{<":
            depth += 1
        elif c in ")]}>":
            depth -= 1
        if depth == 0 and s.startswith(sep, i):
            out.append("".join(cur)); cur = []; i += len(sep); continue
        cur.append(c); i += 1
    t = "".join(cur)
    if t.strip() or out:
        out.append(t)
    out = [x.strip() for x in out]
    if out and out[-1] == "":
        out.pop()
    return out

def match_close(s, i):
    """index of the bracket closing s[i]."""
    depth, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            i = j + 1; continue
        if c == "'":
            m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\.|[^\\'])'", s[i:])
            if m:
                i += len(m.group(0)); continue
        if c == "-" and s[i:i + 2] == "->":
            i += 2; continue
        if c == "=" and s[i:i + 2] == "=>":
            i += 2; continue
        if c in "([{<":
            depth += 1
        elif c in ")]}>":
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise MirError("unbalanced: " + s)

def strip_generics(path):
    """a::b::<T>::c::<U>  ->  a::b::c   (leaves a leading <X as Y> alone)"""
    out, i = [], 0
    while i < len(path):
        if path.startswith("::<", i):
            # keep "<impl ...>" parts: they are names
            j = match_close(path, i + 2)
            if path.startswith("::<impl ", i):
                out.append(path[i:j + 1])
            i = j + 1
            continue
        out.append(path[i]); i += 1
    return "".join(out)

def last_generics(path):
    """type arguments of the last path segment (lifetimes already erased)"""
    if not path.endswith(">"):
        return []
    # find matching '<' from end
    depth = 0
    i = len(path) - 1
    while i >= 0:
        c = path[i]
        if c == ">" and path[i - 1] != "-" and path[i-1] != "=":
            depth += 1
        elif c == "<":
            depth -= 1
            if depth == 0:
                break
        i -= 1
    if i >= 2 and path[i - 2:i] == "::":
        return split_top(path[i + 1:-1])
    return []

# ---------------------------------------------------------------- AST
class Place:
    __slots__ = ("local", "proj")
    def __init__(self, local, proj=()):
        self.local, self.proj = local, tuple(proj)
    def __repr__(self):
        return "_%d%s" % (self.local, "".join("." + str(p) for p in self.proj))

def parse_place(s):
    s = s.strip()
    m = re.fullmatch(r"_(\d+)", s)
    if m:
        return Place(int(m.group(1)))
    if s.endswith("]"):
        # find the matching '['
        depth = 0
        for i in range(len(s) - 1, -1, -1):
            if s[i] == "]":
                depth += 1
            elif s[i] == "[":
                depth -= 1
                if depth == 0:
                    break
        base = parse_place(s[:i])
        idx = s[i + 1:-1]
        m = re.fullmatch(r"_(\d+)", idx)
        if m:
            return Place(base.local, base.proj + (("index", int(m.group(1))),))
        m = re.fullmatch(r"(-?\d+) of (\d+)", idx)
        if m:
            return Place(base.local, base.proj + (("cindex", int(m.group(1)), int(m.group(2))),))
        m = re.fullmatch(r"(\d*):(-?\d*)", idx)
        if m:
            return Place(base.local, base.proj + (("subslice", m.group(1), m.group(2)),))
        raise MirError("place index " + s)
    if s.startswith("(") and match_close(s, 0) == len(s) - 1:
        inner = s[1:-1]
        if inner.startswith("*"):
            b = parse_place(inner[1:])
            return Place(b.local, b.proj + (("deref",),))
        # (P as Variant)
        if inner.startswith("("):
            j = match_close(inner, 0)
        else:
            m = re.match(r"_\d+", inner)
            if not m:
                raise MirError("place " + s)
            j = m.end() - 1
        # an index may follow
        while j + 1 < len(inner) and inner[j + 1] == "[":
            j = match_close(inner, j + 1)
        rest = inner[j + 1:]
        b = parse_place(inner[:j + 1])
        m = re.fullmatch(r" as ([A-Za-z_0-9]+)", rest)
        if m:
            return Place(b.local, b.proj + (("variant", m.group(1)),))
        m = re.match(r"\.(\d+): (.*)$", rest, re.S)
        if m:
            return Place(b.local, b.proj + (("field", int(m.group(1)), norm_ty(m.group(2))),))
        m = re.match(r" as subtype (.*)$", rest)
        if m:
            return b
    raise MirError("place " + s)

ESC = {"n": 10, "t": 9, "r": 13, "0": 0, "\\": 92, "'": 39, '"': 34}
def unescape(s, byte=False):
    out = bytearray(); i = 0
    while i < len(s):
        c = s[i]
        if c != "\\":
            out += c.encode("utf8"); i += 1; continue
        d = s[i + 1]
        if d == "x":
            out.append(int(s[i + 2:i + 4], 16)); i += 4
        elif d == "u":
            j = s.index("}", i)
            out += chr(int(s[i + 3:j], 16)).encode("utf8"); i = j + 1
        elif d == "\n":
            i += 2
            while i < len(s) and s[i] in " \n\t":
                i += 1
        else:
            out.append(ESC[d]); i += 2
    return bytes(out)

INTTY = {"u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "u128": (0, 2**128 - 1),
         "usize": (0, 2**64 - 1), "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
         "i64": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1), "isize": (-2**63, 2**63 - 1), "char": (0, 0x10FFFF)}

def parse_const(s):
    s = s.strip()
    m = re.fullmatch(r"(-?\d+)_([ui](?:8|16|32|64|128|size))", s)
    if m:
        return ("int", int(m.group(1)), m.group(2))
    if s in ("true", "false"):
        return ("bool", s == "true")
    if s == "()":
        return ("unit",)
    if s.startswith('"'):
        return ("str", unescape(s[1:-1]))
    if s.startswith('b"'):
        return ("bytes", unescape(s[2:-1]))
    if s.startswith("'"):
        b = unescape(s[1:-1])
        return ("int", ord(b.decode("utf8")), "char")
    m = re.fullmatch(r"(-?[0-9.eE+-]+|-?inf|NaN)_?(f32|f64)", s)
    if m:
        return ("float", m.group(1), m.group(2))
    m = re.fullmatch(r"\{(alloc\d+): (.*)\}", s)
    if m:
        return ("alloc", m.group(1), norm_ty(m.group(2)))
    return ("path", norm_ty(s))

def parse_operand(s):
    s = s.strip()
    if s.startswith("move "):
        return ("move", parse_place(s[5:]))
    if s.startswith("copy "):
        return ("copy", parse_place(s[5:]))
    if s.startswith("const "):
        return ("const", parse_const(s[6:]))
    if re.match(r"^[A-Za-z_<]", s):
        return ("const", ("path", norm_ty(s)))
    raise MirError("operand " + s)

BINOPS = {"Add", "Sub", "Mul", "Div", "Rem", "BitXor", "BitAnd", "BitOr", "Shl", "Shr", "Eq", "Lt", "Le", "Ne", "Ge", "Gt",
          "Cmp", "Offset", "AddWithOverflow", "SubWithOverflow", "MulWithOverflow", "AddUnchecked", "SubUnchecked", "ShlUnchecked", "ShrUnchecked", "MulUnchecked"}
UNOPS = {"Not", "Neg", "PtrMetadata"}

def parse_rvalue(s):
    s = s.strip()
    m = re.match(r"(?!move |copy |const )(\S.*?) as (.*) \((PointerCoercion\([^()]*\))\)$", s, re.S)
    if m and not s.startswith(("&", "(", "[", "{")):
        return ("cast", parse_operand(m.group(1)), norm_ty(m.group(2)), m.group(3))
    if s.startswith(("move ", "copy ", "const ")):
        # cast?  "<operand> as TY (Kind)"
        m = re.match(r"(.*) as (.*) \(([A-Za-z]+(?:\([^()]*\))?)\)$", s, re.S)
        if m:
            try:
                return ("cast", parse_operand(m.group(1)), norm_ty(m.group(2)), m.group(3))
            except MirError:
                pass
        return ("use", parse_operand(s))
    if s.startswith("&raw const "):
        return ("ref", "rawconst", parse_place(s[11:]))
    if s.startswith("&raw mut "):
        return ("ref", "rawmut", parse_place(s[9:]))
    if s.startswith("&mut "):
        return ("ref", "mut", parse_place(s[5:]))
    if s.startswith("&"):
        return ("ref", "shared", parse_place(s[1:]))
    if s.startswith("deref_copy "):
        return ("use", ("copy", parse_place(s[11:])))
    if s.startswith("discriminant("):
        return ("discr", parse_place(s[13:-1]))
    if s.startswith("Len("):
        return ("len", parse_place(s[4:-1]))
    m = re.match(r"([A-Z][A-Za-z]+)\(", s)
    if m and m.group(1) in BINOPS and match_close(s, m.end() - 1) == len(s) - 1:
        a, b = split_top(s[m.end():-1])
        return ("bin", m.group(1), parse_operand(a), parse_operand(b))
    if m and m.group(1) in UNOPS and match_close(s, m.end() - 1) == len(s) - 1:
        return ("un", m.group(1), parse_operand(s[m.end():-1]))
    if s.startswith("ShallowInitBox("):
        return ("shallowbox", norm_ty(split_top(s[15:-1])[1]))
    if m and m.group(1) in ("SizeOf", "AlignOf", "OffsetOf"):
        return ("nullary", m.group(1), s[m.end():-1])
    if s.startswith("["):
        parts = split_top(s[1:-1], ";")
        if len(parts) == 2:
            return ("repeat", parse_operand(parts[0]), parts[1])
        return ("agg", "array", [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith("("):
        return ("agg", "tuple", [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith("{closure@"):
        j = s.index("}")
        name = s[:j + 1]
        rest = s[j + 1:].strip()
        ops = []
        if rest:
            for f in split_top(rest[1:-1]):
                ops.append(parse_operand(f.split(": ", 1)[1]))
        return ("agg", "closure", name, ops)
    # ADT aggregates:  Path { f: op, .. } | Path(op, ..) | Path
    if s.endswith("}"):
        i = s.rindex(" {") if False else None
        # find the top-level ' {'
        depth = 0; k = None
        for idx in range(len(s)):
            c = s[idx]
            if c == "<" or c == "(":
                depth += 1
            elif c == ">" and s[idx - 1] not in "-=" or c == ")":
                depth -= 1
            elif c == "{" and depth == 0:
                k = idx; break
        body = s[k + 1:-1].strip()
        names, ops = [], []
        for f in split_top(body):
            n, o = f.split(": ", 1)
            names.append(n); ops.append(parse_operand(o))
        return ("agg", "adt", norm_ty(s[:k].strip()), ops, names)
    if s.endswith(")"):
        # last '(' at top level
        depth = 0; k = None
        for idx in range(len(s)):
            c = s[idx]
            if c == "<":
                depth += 1
            elif c == ">" and s[idx - 1] not in "-=":
                depth -= 1
            elif c == "(" and depth == 0:
                k = idx; break
        return ("agg", "adt", norm_ty(s[:k].strip()), [parse_operand(x) for x in split_top(s[k + 1:-1])], None)
    if re.match(r"^[A-Za-z_<]", s):
        return ("agg", "adt", norm_ty(s), [], None)
    raise MirError("rvalue " + s)

class Fn:
    def __init__(self, name, params, ret, kind):
        self.name, self.params, self.ret, self.kind = name, params, ret, kind
        self.locals = {}      # idx -> type
        self.debug = {}       # name -> Place (last wins), params first
        self.blocks = {}      # idx -> [stmt], each stmt a tuple; last is terminator
        self.cleanup = set()
        self.raw = {}
        self.line = 0
        self._loops = None
        self.parsed = False

    def ensure(self):
        if self.parsed:
            return
        for b, lines in self.raw.items():
            self.blocks[b] = [parse_stmt(l) for l in lines]
        self.parsed = True

    def succs(self, b, seen_cleanup=False):
        t = self.blocks[b][-1]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k in ("drop",):
            return [t[2]]
        if k == "assert":
            return [t[3]]
        return []

    def loops(self):
        """{head: set(blocks)} natural loops."""
        if self._loops is not None:
            return self._loops
        self.ensure()
        color, back, order = {}, [], []
        stack = [(0, iter(self.succs(0)))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succs(s))))
                    break
                elif color[s] == 1:
                    back.append((b, s))
            else:
                color[b] = 2; order.append(b); stack.pop()
        preds = {}
        for b in color:
            for s in self.succs(b):
                preds.setdefault(s, []).append(b)
        loops = {}
        for u, h in back:
            body = loops.setdefault(h, {h})
            work = [u]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work += preds.get(x, [])
        self._loops = loops
        return loops

def parse_term_targets(s):
    m = re.search(r"return: bb(\d+)", s)
    return int(m.group(1)) if m else None

def parse_stmt(l):
    l = l.strip()
    if l.endswith(";"):
        l = l[:-1]
    if l.startswith(("StorageLive(", "StorageDead(")):
        return ("storage", l[7:11], int(re.search(r"_(\d+)", l).group(1)))
    if l in ("nop", "ConstEvalCounter") or l.startswith(("FakeRead", "AscribeUserType", "PlaceMention", "Coverage", "Retag", "BackwardIncompatibleDropHint")):
        return ("nop",)
    if l.startswith("goto -> "):
        return ("goto", int(l[10:]))
    if l == "return":
        return ("return",)
    if l == "unreachable":
        return ("unreachable",)
    if l in ("resume", "abort") or l.startswith("terminate"):
        return ("resume",)
    if l.startswith("switchInt("):
        j = match_close(l, 9)
        op = parse_operand(l[10:j])
        arms, other = [], None
        for a in split_top(l[l.index("[", j) + 1:-1]):
            k, t = a.split(": ")
            t = int(t.strip()[2:])
            if k == "otherwise":
                other = t
            else:
                arms.append((int(k), t))
        return ("switch", op, arms, other)
    if l.startswith("drop("):
        j = match_close(l, 4)
        return ("drop", parse_place(l[5:j]), int(re.search(r"return: bb(\d+)", l).group(1)))
    if l.startswith("assert("):
        j = match_close(l, 6)
        parts = split_top(l[7:j])
        c = parts[0]
        neg = c.startswith("!")
        return ("assert", (neg, parse_operand(c[1:] if neg else c)), parts[1] if len(parts) > 1 else "", int(re.search(r"success: bb(\d+)", l[j:]).group(1)))
    if l.startswith("discriminant("):
        j = match_close(l, 12)
        if l[j + 1:].startswith(" = "):
            return ("setdiscr", parse_place(l[13:j]), int(l[j + 4:]))
    if l.startswith("falseEdge") or l.startswith("falseUnwind"):
        return ("goto", int(re.search(r"bb(\d+)", l).group(1)))
    # assignment or call
    m = re.search(r"\) -> (\[return: bb\d+.*\]|\[return: bb\d+\]|unwind [a-z0-9() ]+|bb\d+)$", l)
    dest = None
    k = find_assign(l)
    if m:
        if k is not None:
            dest = parse_place(l[:k]); body = l[k + 3:m.start() + 1]
        else:
            body = l[:m.start() + 1]
        # callee(args): the last top-level paren group
        depth = 0; p = None
        i = len(body) - 1
        # scan backwards is hard with strings; scan forward collecting top-level '('
        tops = []
        idx = 0
        while idx < len(body):
            c = body[idx]
            if c == "-" and body[idx:idx + 2] == "->":
                idx += 2; continue
            if c in "([{":
                if depth == 0 and c == "(":
                    tops.append(idx)
                e = match_close(body, idx)
                idx = e + 1; continue
            if c == "<":
                e = match_close(body, idx)
                idx = e + 1; continue
            idx += 1
        p = tops[-1]
        callee = body[:p].strip()
        args = [parse_operand(x) for x in split_top(body[p + 1:-1])]
        ret = parse_term_targets(m.group(1))
        if callee.startswith(("move ", "copy ")):
            cal = ("op", parse_operand(callee))
        else:
            cal = ("path", norm_ty(callee))
        return ("call", dest, cal, args, ret)
    if k is not None:
        return ("assign", parse_place(l[:k]), parse_rvalue(l[k + 3:]))
    raise MirError("stmt " + l)

def find_assign(l):
    depth = 0; i = 0
    while i < len(l):
        c = l[i]
        if c in "([":
            i = match_close(l, i) + 1; continue
        if l.startswith(" = ", i):
            return i
        if c in '"{':
            return None
        i += 1
    return None

# ---------------------------------------------------------------- program
class Program:
    def __init__(self, mir_text, srcdir):
        self.fns = {}           # raw mir name -> [Fn]  (macro-generated impls share names)
        self.all = []
        self.by_key = {}        # resolved key -> Fn
        self.closures = {}      # "{closure@...}" -> Fn
        self.src = {}
        self.srcdir = srcdir
        self.enums = {}         # type path (short) -> [variant names]
        self.structs = {}
        self.errors = []
        self._load_src()
        self._load_mir(mir_text)
        self._index()

    # -- source
    def _load_src(self):
        for root, _, files in os.walk(self.srcdir):
            for f in files:
                if f.endswith(".rs"):
                    p = os.path.join(root, f)
                    rel = "src/" + os.path.relpath(p, self.srcdir)
                    self.src[rel] = open(p, encoding="utf8").read()
        for rel, text in self.src.items():
            t = strip_comments(text)
            for m in re.finditer(r"\benum\s+([A-Z]\w*)\s*(<[^{]*?>)?\s*(?:where[^{]*)?\{", t):
                body = t[m.end():match_brace(t, m.end() - 1)]
                vs, discr, nextv = [], {}, 0
                for part in split_items(body):
                    part = re.sub(r"#\[[^\]]*\]", "", part).strip()
                    if not part:
                        continue
                    mm = re.match(r"(\w+)", part)
                    d = re.search(r"=\s*(.+)$", part) if "(" not in part and "{" not in part else None
                    if d:
                        try:
                            nextv = int(d.group(1).strip(), 0)
                        except ValueError:
                            nextv = ("expr", d.group(1).strip())
                    vs.append(mm.group(1))
                    discr[mm.group(1)] = nextv
                    if isinstance(nextv, int):
                        nextv += 1
                self.enums.setdefault(m.group(1), []).append((rel, vs, discr))
            for m in re.finditer(r"\bstruct\s+([A-Z]\w*)", t):
                rest = t[m.end():]
                k = re.match(r"\s*(<[^{(;]*?>)?\s*(?:where[^{;(]*)?([{(;])", rest)
                if not k:
                    continue
                names = None
                if k.group(2) == "{":
                    st = m.end() + k.end() - 1
                    body = t[st + 1:match_brace(t, st)]
                    names = []
                    for part in split_items(body):
                        part = re.sub(r"#\[[^\]]*\]", "", part).strip()
                        mm = re.match(r"(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:", part)
                        if mm:
                            names.append(mm.group(1))
                self.structs.setdefault(m.group(1), []).append((rel, names))

    def field_index(self, struct, name, rel=None):
        for r, names in self.structs.get(struct, []):
            if names and name in names and (rel is None or r == rel):
                return names.index(name)
        raise MirError("no field %s.%s" % (struct, name))

    # -- MIR
    def _load_mir(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("fn ") or l.startswith("const ") or l.startswith("static ") or (l.endswith("= {") and not l.startswith(" ")):
                try:
                    i = self._parse_fn(lines, i)
                    continue
                except MirError as e:
                    self.errors.append(str(e))
            i += 1

    def _parse_fn(self, lines, i):
        l = lines[i]
        if l.startswith("fn "):
            # fn NAME(params) -> RET {
            head = l[3:-2]
            # find param list open paren: first '(' at depth 0 outside <> and {}
            k = 0
            while True:
                c = head[k]
                if c in "<{":
                    k = match_close(head, k) + 1; continue
                if c == "(":
                    break
                k += 1
            e = match_close(head, k)
            name = head[:k]
            params = []
            for p in split_top(head[k + 1:e]):
                m = re.match(r"_(\d+): (.*)$", p, re.S)
                params.append((int(m.group(1)), norm_ty(m.group(2))))
            ret = norm_ty(head[e + 1:].strip()[3:]) if "->" in head[e:] else "()"
            fn = Fn(name, params, ret, "fn")
        else:
            m = re.match(r"(const|static mut|static)?\s*(.*?): (.*) = \{$", l)
            # the type is after the last ': ' at top level; names contain "impl at a:b: c"
            name, ty = split_const_head(l)
            fn = Fn(name, [], norm_ty(ty), "const")
        fn.line = i + 1
        for k, t in fn.params:
            fn.locals[k] = t
        i += 1
        cur = None
        while lines[i] != "}":
            s = lines[i].strip()
            if s.startswith("debug "):
                m = re.match(r"debug (\S+) => (.*);$", s)
                if m:
                    fn.debug.setdefault(m.group(1), []).append(m.group(2))
            elif s.startswith("let "):
                m = re.match(r"let (?:mut )?_(\d+): (.*);$", s)
                fn.locals[int(m.group(1))] = norm_ty(m.group(2))
            elif re.match(r"bb\d+( \(cleanup\))?: \{", s):
                cur = int(re.match(r"bb(\d+)", s).group(1))
                fn.raw[cur] = []
                if "(cleanup)" in s:
                    fn.cleanup.add(cur)
            elif s == "}" or s == "" or s.startswith("scope "):
                if s == "}":
                    cur_done = True
            elif cur is not None:
                # a statement may span lines? (string constants are escaped: no)
                fn.raw[cur].append(s)
            i += 1
        # constants: last definition wins unless name already there
        self.all.append(fn)
        self.fns.setdefault(fn.name, []).append(fn)
        return i + 1

    # -- resolve impl locations
    def impl_info(self, loc):
        """loc = 'src/de.rs:447:1: 447:60' -> (module path, trait or None, self type text)"""
        m = re.match(r"(src/[\w/.]+):(\d+):(\d+): (\d+):(\d+)", loc)
        rel, l1, c1, l2, c2 = m.group(1), *map(int, m.groups()[1:])
        lines = self.src[rel].split("\n")
        if l1 == l2:
            txt = lines[l1 - 1][c1 - 1:c2 - 1]
        else:
            txt = "\n".join([lines[l1 - 1][c1 - 1:]] + lines[l1:l2 - 1] + [lines[l2 - 1][:c2 - 1]])
        if txt.startswith("impl") or txt.startswith("unsafe impl"):
            txt = re.sub(r"^unsafe ", "", txt)
            t = txt[4:].strip()
            if t.startswith("<"):
                j = match_close(t, 0)
                gens, t = t[1:j], t[j + 1:].strip()
            else:
                gens = ""
            t = re.split(r"\bwhere\b", t)[0].strip()
            if re.search(r"\sfor \$", txt):
                # written by a macro: the trait's name is in the macro, the self type is the first parameter's
                m = re.search(r"([A-Za-z_][\w:]*)\s+for\s", txt)
                return rel, m.group(1) if m else "?", None, txt
            parts = split_kw_for(t)
            if len(parts) == 2:
                return rel, norm_ty(parts[0]), norm_ty(parts[1]), gens
            return rel, None, norm_ty(t), gens
        # derive: next struct/enum after that line
        rest = "\n".join(lines[l1 - 1:])
        m = re.search(r"\b(?:struct|enum)\s+(\w+)", rest)
        if re.match(r"^\w+$", txt) and m:
            return rel, txt, m.group(1), ""
        # macro-generated impl
        return rel, None, None, txt

    def closure_ty(self, ty, within):
        """macro-generated closures share a source span: the body meant is the next one after the function it is made in"""
        c = self.closures.get(ty + "*", [])
        if len(c) <= 1:
            return ty
        after = [f for f in c if f.line > within.line]
        f = min(after, key=lambda f: f.line) if after else c[0]
        t = "%s#%d" % (ty, f.line)
        self.closures[t] = f
        return t

    def _index(self):
        self.impls = []      # (trait short or None, selfty, method, Fn, module)
        for name, fn in [(f.name, f) for f in self.all]:
            m = re.match(r"(.*?)<impl at (src/[^>]*)>(.*)$", name)
            if "{closure#" in name and fn.params:
                t = fn.params[0][1]
                t = re.sub(r"^&(mut )?", "", t)
                if t.startswith("{closure@"):
                    self.closures[t] = fn
                    self.closures.setdefault(t + "*", []).append(fn)
            # innermost impl
            ms = list(re.finditer(r"<impl at (src/[^>]*)>", name))
            if ms:
                mm = ms[-1]
                rest = name[mm.end():]
                meth = rest[2:]
                try:
                    rel, trait, selfty, gens = self.impl_info(mm.group(1))
                except Exception as e:  # pragma: no cover
                    self.errors.append("impl_info %s: %s" % (name, e)); continue
                if selfty is None and fn.params and meth and "::" not in meth:
                    # macro generated: take the self type from the first parameter
                    selfty = fn.params[0][1]
                    if trait is None:
                        trait = "?"
                    else:
                        selfty = re.sub(r"^(&mut |&)", "", selfty)
                fn.trait, fn.selfty, fn.method, fn.modpath = trait, selfty, meth, name[:ms[0].start()]
                fn.impl_gens = gens; fn.rel = rel
                self.impls.append(fn)
            else:
                fn.trait = fn.selfty = None
                fn.method = name.split("::")[-1]
        self._build_keys()

    def _build_keys(self):
        for name, fn in [(f.name, f) for f in self.all]:
            if fn.selfty is None:
                self.by_key.setdefault(name, []).append(fn)
        for fn in self.impls:
            st = short(fn.selfty)
            if fn.trait is None:
                self.by_key.setdefault("%s::%s" % (st, fn.method), []).append(fn)
            elif fn.trait == "?":
                self.by_key.setdefault("<%s as ?>::%s" % (refshort(fn.selfty), fn.method), []).append(fn)
            else:
                self.by_key.setdefault("<%s as %s>::%s" % (refshort(fn.selfty), short(fn.trait), fn.method), []).append(fn)

    def find(self, key):
        l = self.by_key.get(key, [])
        return l[0] if len(l) == 1 else (l or None)

def short(t):
    """last path segment without generics of a (non-reference) type"""
    t = t.strip()
    t = strip_ty_generics(t)
    if t.startswith("<") or t.startswith("{") or t.startswith("(") or t.startswith("["):
        return t
    return t.split("::")[-1]

def refshort(t):
    pre = ""
    while t.startswith("&"):
        if t.startswith("&mut "):
            pre += "&mut "; t = t[5:]
        else:
            pre += "&"; t = t[1:].strip()
    return pre + short(t)

def strip_ty_generics(t):
    if t.startswith("<"):
        return t
    i = t.find("<")
    if i < 0:
        return t
    try:
        j = match_close(t, i)
    except MirError:
        return t
    pre = t[:i]
    if pre.endswith("::"):
        pre = pre[:-2]
    return strip_ty_generics(pre + t[j + 1:])

def split_kw_for(t):
    depth = 0; i = 0
    while i < len(t):
        c = t[i]
        if c in "<([{":
            depth += 1
        elif c in ")]}" or (c == ">" and t[i - 1] not in "-="):
            depth -= 1
        elif depth == 0 and re.match(r"\bfor\b(?!<)", t[i:]) and t[i - 1] in " \n":
            return [t[:i].strip(), t[i + 3:].strip()]
        i += 1
    return [t]

def split_const_head(l):
    l = re.sub(r"^(const|static mut|static) ", "", l)
    assert l.endswith(" = {")
    l = l[:-4]
    i = 0; last = None
    while i < len(l):
        c = l[i]
        if c in "<{([":
            i = match_close(l, i) + 1; continue
        if l.startswith(": ", i):
            return l[:i], l[i + 2:]
        i += 1
    raise MirError("const head " + l)

def strip_comments(t):
    out = []; i = 0
    while i < len(t):
        if t.startswith("//", i):
            j = t.find("\n", i)
            i = j if j >= 0 else len(t); continue
        if t.startswith("/*", i):
            i = t.index("*/", i) + 2; continue
        if t[i] == '"':
            j = i + 1
            while t[j] != '"':
                j += 2 if t[j] == "\\" else 1
            out.append('""'); i = j + 1; continue
        m = re.match(r"b?'(\\.[^']*|[^\\'])'", t[i:])
        if m:
            out.append("' '"); i += m.end(); continue
        out.append(t[i]); i += 1
    return "".join(out)

def match_brace(t, i):
    depth = 0
    while i < len(t):
        if t[i] in "{([":
            depth += 1
        elif t[i] in "})]":
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise MirError("brace")

def split_items(body):
    out, depth, cur = [], 0, []
    for c in body:
        if c in "{([<":
            depth += 1
        elif c in "})]>":
            depth -= 1
        if c == "," and depth == 0:
            out.append("".join(cur)); cur = []
        else:
            cur.append(c)
    out.append("".join(cur))
    return out
