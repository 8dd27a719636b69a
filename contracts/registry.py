"""Collects the contracts and lemmas of all modules in this directory."""
import importlib, glob, os
from engine import Contract
HERE = os.path.dirname(os.path.abspath(__file__))

class Lemma:
    is_lemma = True
    assumed = False
    def __init__(self, name, props, build, doc="", cost=1):
        self.name, self.props, self.build, self.doc, self.cost = name, tuple(props), build, doc, cost

class Registry:
    def __init__(self, prog):
        self.prog = prog
        self.items = {}
        self.by_key = {}
        self.notes = {}
    def add(self, key, spec=None, props=(), name=None, subst=None, assumed=False, cost=1, **kw):
        c = Contract(key, spec, props=props, name=name or key, **kw)
        c.is_lemma = False; c.assumed = assumed; c.cost = cost
        c.subst = subst or {}
        if not assumed:
            assert c.name not in self.items, c.name
            self.items[c.name] = c
        if name is None or assumed:
            self.by_key[key] = c
        return c
    def lemma(self, name, props, build, doc="", cost=1):
        self.items[name] = Lemma(name, props, build, doc, cost)
    def names_of(self, key):
        return [n for n, c in self.items.items() if not c.is_lemma and c.key == key]
    def assume(self, props, text):
        for p in props:
            self.notes.setdefault(p, []).append(text)
    def assumptions(self, pid):
        return GENERAL + self.notes.get(pid, [])

GENERAL = [
    "unsafe-libyaml, indexmap, serde, itoa, ryu, std: their functions meet the assumed library contracts (mirvc/lib.py) or are opaque deterministic functions of their arguments",
    "strings are sequences of bytes holding valid UTF-8; machine integers are mathematical with their range, and every overflow check is a panic obligation",
    "client code (Visitor, Serialize, Serializer, Deserialize, Read, Write implementations) is an opaque deterministic function of its arguments that changes only what it is given by &mut",
    "drop glue, unwinding and allocation failure are not modelled",
]

def load(prog):
    R = Registry(prog)
    for f in sorted(glob.glob(HERE + "/c_*.py")):
        m = importlib.import_module("contracts." + os.path.basename(f)[:-3])
        m.register(R)
    return R
