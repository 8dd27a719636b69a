"""the public ends: from_str, from_slice, from_reader, from_value, errors as std errors, small impls (C12, C15, C16, C20, C21)"""
from contracts.dsl import *
from contracts import c_loader as cl, c_error as ce, c_ser as cs, c_value as cv

IMPL, ARC, LOC, MARK = ce.IMPL, ce.ARC, ce.LOC, ce.MARK
OSRC = "std::option::Option<&dyn std::error::Error>"

def from_input(variant):
    def f(c, x):
        if variant == "Read": x = Ref(c.alloc(x, "box"), (), "box", c.tys[0])
        return uninterp(c.run, "Deserialize::deserialize", [mkstruct(c, cl.DE, progress=Adt(cl.PROGRESS, variant, [x]))], c.ret)
    f.__doc__ = "the target reads itself from a deserializer of this input"
    return f

def from_value(c, v):
    """the target reads itself from this value"""
    return uninterp(c.run, "Deserialize::deserialize", [v], c.ret)

def loc_getter(n):
    def f(c, l): return get(c, l, n)
    f.__doc__ = "the location's " + n
    return f

def impl_source(c, e):
    """what an io or utf-8 error was caused by, also when shared; nothing else has a cause"""
    i = deep(c.run, e)
    k = c.case(i)
    if k in ("Io", "FromUtf8"):
        ty = {"Io": "std::io::Error", "FromUtf8": "std::string::FromUtf8Error"}[k]
        return uninterp(c.run, "<%s as Error>::source" % short(ty), [c.mkref(c.field(i, k, 0, ty), "shared", ty)], c.ret)
    if k == "Shared": return callf(c, "ErrorImpl::source", [c.field(i, k, 0, ARC)], c.ret)
    return none(c.ret)

def error_display(c, e, f):
    """the text of what is inside"""
    return callf(c, "ErrorImpl::display", [Ref(ce.impl_of(c, e).cell, ce.impl_of(c, e).path, "shared", IMPL), f], FRES)

def bytes_of(c, t):
    return strof(c.run, c.field(deep(c.run, t), None, 0, "std::boxed::Box<[u8]>"))

def same_bytes(c, a, b):
    """the same bytes"""
    return bytes_of(c, a) == bytes_of(c, b)

def same_text(c, a, b):
    """these bytes"""
    return bytes_of(c, a) == strof(c.run, b)

def from_iter(c, it):
    """the sequence of the items, each turned into a value, in order"""
    I = "<I as std::iter::IntoIterator>::IntoIter"
    F = "fn(T) -> value::Value {<T as std::convert::Into<value::Value>>::into}"
    x = call(c, "<I as std::iter::IntoIterator>::into_iter", [it], ["I"], I)
    x = call(c, "<%s as std::iter::Iterator>::map::<value::Value, %s>" % (I, F), [x, FnDef("<T as std::convert::Into<value::Value>>::into")], [I, F], "std::iter::Map<%s, %s>" % (I, F))
    v = call(c, "<std::iter::Map<%s, %s> as std::iter::Iterator>::collect::<std::vec::Vec<value::Value>>" % (I, F), [x], ["std::iter::Map<%s, %s>" % (I, F)], cv.SEQ)
    return Adt(cv.V, "Sequence", [v])

def register(R):
    R.add("de::from_str", from_input("Str"), ("C15",))
    R.add("de::from_slice", from_input("Slice"), ("C15",))
    R.add("de::from_reader", from_input("Read"), ("C15", "C20"))
    R.add("value::from_value", from_value, ("C07", "C08"))
    R.add("<Value as IntoDeserializer>::into_deserializer", lambda c, v: v, ("C07",))
    for n in ("index", "line", "column"): R.add("Location::" + n, loc_getter(n), ("C16",))
    R.add("ErrorImpl::source", impl_source, ("C20",), opaque=True)
    R.add("<Error as StdError>::source", lambda c, e: callf(c, "ErrorImpl::source", [Ref(ce.impl_of(c, e).cell, ce.impl_of(c, e).path, "shared", IMPL)], c.ret), ("C20",))
    R.add("<Error as Display>::fmt in src/error.rs", error_display, ("C16",))
    R.add("<Tag as PartialEq>::eq (&libyaml::tag::Tag, &libyaml::tag::Tag)", same_bytes, ("C05",))
    R.add("<Anchor as PartialEq>::eq", same_bytes, ("C10",))
    R.add("<UnitVariantAccess as VariantAccess>::unit_variant", lambda c, s: ok(c.ret, UNIT), ("C06",))
    R.add("<Value as FromIterator>::from_iter", from_iter, ("C22",))
