"""Meaning of the functions that are not executed as MIR: the standard library, serde_json, anyhow,
http builders, and (as deterministic uninterpreted functions) every other dependency.

A model returns a list of (state, value) or ("panic", state, text).
"""
import re

import z3

from mir import strip, TRANSPARENT
from sym import *
import sym
from exe import Unsupported, Event, VGen, SymLoop, State, guards_in

EXACT = {}
TRAIT = {}
PREFIX = []


def model(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def tmodel(trait, *methods):
    def d(f):
        for m in methods:
            TRAIT[(trait, m)] = f
        return f
    return d


class Call:
    """A call being modelled."""

    def __init__(self, ex, st, c, args):
        self.ex, self.st, self.c, self.args = ex, st, c, args
        self.prog = ex.prog

    @property
    def ret(self):
        return self.prog.types[self.c["ret"]] if "ret" in self.c else None

    def ty(self, i):
        a = [x for x in self.c.get("rargs", self.c.get("args", [])) if isinstance(x, int)]
        return self.prog.types[a[i]] if i < len(a) else None

    def targ(self, i):
        a = [x for x in self.c.get("args", []) if isinstance(x, int)]
        return self.prog.types[a[i]] if i < len(a) else None

    def val(self, i):
        return val(self.ex, self.st, self.args[i])

    def wrap(self, v):
        """v as the return type wants it: behind a reference or not."""
        return rewrap(self.ret, v)

    def some(self, v):
        return VAdt(self.ret, self.ret.vindex("Some"), [v])

    def none(self):
        return VAdt(self.ret, self.ret.vindex("None"), [])

    def ok(self, v):
        return VAdt(self.ret, self.ret.vindex("Ok"), [v])

    def err(self, v=None):
        return VAdt(self.ret, self.ret.vindex("Err"), [v if v is not None else VOpaque("err")])

    def one(self, v):
        return [(self.st, v)]

    def branch(self, f):
        return self.ex.branch(self.st, [(f, True), (z3.Not(f), False)])

    def optional(self, f, v):
        return [(s, self.some(v) if b else self.none()) for s, b in self.branch(f)]

    def result(self, f, v):
        return [(s, self.ok(v) if b else self.err()) for s, b in self.branch(f)]


def val(ex, st, a):
    """The plain value behind references."""
    while True:
        if isinstance(a, VRef):
            a = a.x
        elif isinstance(a, VMut):
            a = ex.read_mut(st, a)
        else:
            return a


def rewrap(ty, v):
    if ty is not None and ty.k == "ref":
        return VRef(rewrap(ty.elem, v))
    if isinstance(v, VRaw) and ty is not None:
        return unbox(ty, v.t)
    return v


def tyname(t):
    s = re.sub(r"'[a-zA-Z_]\w* ?|'\{erased\} ?", "", t.s)
    return s.replace("<'_>", "").replace("'_ ", "").replace("'_, ", "").replace("'_", "")


# names given to dependency functions in contracts: (regex on path, name, with_types)
NICE = {
    "ssi_claims::ssi_jws::split_jws": "split_jws",
    "ssi_claims::ssi_jwt::decode_unverified": "jwt_decode_unverified",
    "ssi_claims::ssi_jwt::decode_verify": "jwt_decode_verify",
}


def uf_name(c, prog):
    p = c.get("rpath") or c["path"]
    if p in NICE:
        p = NICE[p]
    ts = [prog.types[a] for a in c.get("rargs", c.get("args", [])) if isinstance(a, int)]
    ts = [tyname(t) for t in ts if t.k not in ("closure",) and t.s != "std::alloc::Global"]
    return p + ("<" + ",".join(ts) + ">" if ts else "")


def uf_term(name, *terms):
    if not terms:
        return z3.Const("uf~" + name, U)
    t = fn("uf~" + name, *([U] * len(terms)), U)(*terms)
    AX.add(t, t != absent)
    return t


class Models:
    def __init__(self, pure_traits=(), event_traits=()):
        self.contract_hook = None
        self.seen_ext = {}

    def dispatch(self, ex, st, c, args):
        kind = c.get("kind")
        C = Call(ex, st, c, args)
        if kind == "ctor":
            ty = ex.prog.types[c["ty"]]
            if ty.path in TRANSPARENT and len(args) == 1:
                return [(st, args[0])]
            return [(st, VAdt(ty, c["variant"], args))]
        path = c.get("rpath") or c.get("path")
        key = c.get("key")
        if self.contract_hook is not None and key is not None:
            r = self.contract_hook(ex, st, c, args)
            if r is not None:
                return r
        f = EXACT.get(path)
        if f is not None:
            r = f(C)
            if r is not NotImplemented:
                return r
        tr, m = c.get("trait"), c.get("method")
        if tr in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn"):
            a = args[1]
            xs = list(a.fs) if isinstance(a, VTup) else [ex.get1(a, ("f", None, i, t)) for i, t in enumerate(strip(C.targ(1)).elems)]
            g = val(ex, st, args[0])
            if isinstance(g, VSym):
                # a callback supplied by the caller of the library
                snap = [snapshot(ex, st, x) for x in xs]
                if is_future(C.ret) or C.ret.k in ("param", "alias"):
                    return [(st, VFut("callback", snap, C.ret))]
                return [(st, unbox(C.ret, uf_term("callback", *[box(x) for x in [g] + snap])))]
            return ex.apply(st, args[0], xs)
        if tr is not None:
            f = TRAIT.get((tr, m))
            if f is not None:
                r = f(C)
                if r is not NotImplemented:
                    return r
        for pre, f in PREFIX:
            if path.startswith(pre):
                r = f(C)
                if r is not NotImplemented:
                    return r
        if key is not None and key in ex.prog.bodies:
            return ex.run_body(key, args, st)
        if kind in ("unresolved", "virtual"):
            return self.env_call(C)
        # frontend crate: bodies come from its own dump
        b = ex.prog.by_path.get(path)
        if b is not None and b["nargs"] == len(args):
            return ex.run_body(b["key"], args, st)
        if c.get("ret") is None:
            return None
        rt = C.ret
        if rt.k == "never":
            return [("panic", st, f"{path} called")]
        return self.external(C)

    def env_call(self, C):
        """A method of a trait implemented by the library's user (or of a type parameter)."""
        ex, st, c = C.ex, C.st, C.c
        rt = C.ret
        name = c["path"]
        snap = [snapshot(ex, st, a) for a in C.args]
        if is_future(rt):
            return [(st, VFut(name, snap, rt))]
        # synchronous: a deterministic function of its arguments
        ts = [tyname(t) for t in (C.prog.types[a] for a in c.get("args", []) if isinstance(a, int))][1:]
        n = name + ("<" + ",".join(ts) + ">" if ts else "")
        ex.externals.setdefault("env:" + n, 0)
        ex.externals["env:" + n] += 1
        terms = [box(a) for a in snap]
        tr = c.get("trait") or ""
        if tr and not tr.startswith(("crate::", "std::convert::", "std::cmp::", "std::clone::", "std::hash::", "std::default::")):
            # a trait of a dependency whose method has no model
            st.note("env:" + n)
            for i, a in enumerate(C.args):
                if isinstance(a, VMut):
                    ex.write_mut(st, a, retype(ex.read_mut(st, a), uf_term(f"env:{n}~post{i}", *terms)))
        return [(st, unbox(rt, uf_term("env:" + n, *terms)))]

    def external(self, C):
        ex, st, c = C.ex, C.st, C.c
        name = uf_name(c, C.prog)
        ex.externals[name] = ex.externals.get(name, 0) + 1
        pth = c.get("rpath") or c["path"]
        if c.get("rcrate") in ("core", "alloc", "std") or NICE.get(pth, pth) not in KNOWN_EXT:
            st.note(name)
        if is_future(C.ret):
            return [(st, VFut(name, [snapshot(ex, st, a) for a in C.args], C.ret))]
        snap = [snapshot(ex, st, a) for a in C.args]
        terms = [box(a) for a in snap]
        r = unbox(C.ret, uf_term(name, *terms))
        for i, a in enumerate(C.args):
            if isinstance(a, VMut):
                old = ex.read_mut(st, a)
                t = uf_term(f"{name}~post{i}", *terms)
                ex.write_mut(st, a, retype(old, t))
        return [(st, r)]


def retype(old, t):
    if isinstance(old, VStr):
        return VStr(tos(t))
    if isinstance(old, VSym):
        return VSym(old.ty, t)
    if isinstance(old, VAdt):
        return VSym(old.ty, t)
    if isinstance(old, VMap):
        return VMap(tom(t), old.kty, old.vty)
    if isinstance(old, (VSeq, VSSeq)):
        return VSSeq(old.ety, t)
    if isinstance(old, VInt):
        return VInt(toi(t))
    if isinstance(old, VBool):
        return VBool(tob(t))
    return VRaw(t)


def snapshot(ex, st, a):
    if isinstance(a, VMut):
        return snapshot(ex, st, ex.read_mut(st, a))
    if isinstance(a, VRef):
        return VRef(snapshot(ex, st, a.x))
    if isinstance(a, VGen):
        return a.it
    if isinstance(a, (VAdt, VTup)):
        fs = [snapshot(ex, st, f) for f in a.fs]
        if all(x is y for x, y in zip(fs, a.fs)):
            return a
        return VAdt(a.ty, a.v, fs) if isinstance(a, VAdt) else VTup(fs)
    return a


def is_future(ty):
    if ty is None:
        return False
    t = strip(ty)
    if t is None:
        return False
    if t.k == "dyn":
        return t.d["trait"].endswith("::Future")
    if t.k == "alias" or t.k == "other":
        return "Future<" in t.s
    if t.k == "coroutine":
        return True
    return False


# dependency functions the contracts talk about; the rest of the dependencies are modelled the
# same way (uninterpreted, deterministic) but a failed proof that depends on one is not believed
KNOWN_EXT = set()


def known_ext(*names):
    KNOWN_EXT.update(names)


# ------------------------------------------------------------------ identity-like
def identity(C):
    a = C.args[0]
    rt = C.ret
    if rt.k == "ref" and rt.d["mut"]:
        if isinstance(a, VMut):
            # through one more reference level if the argument is &mut &mut
            v = C.ex.read_mut(C.st, a)
            return C.one(v if isinstance(v, VMut) else a)
        if isinstance(a, VRef) and isinstance(a.x, VMut):
            return C.one(a.x)
    return C.one(C.wrap(C.val(0)))


for n in """<std::string::String as std::ops::Deref>::deref
<std::string::String as std::ops::DerefMut>::deref_mut
<std::vec::Vec<T, A> as std::ops::Deref>::deref
<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut
<std::sync::Arc<T, A> as std::ops::Deref>::deref
<std::boxed::Box<T, A> as std::ops::Deref>::deref
<std::rc::Rc<T, A> as std::ops::Deref>::deref
<std::borrow::Cow<'_, B> as std::ops::Deref>::deref
<std::borrow::Cow<'_, T> as std::convert::AsRef<T>>::as_ref
std::borrow::Cow::<'_, B>::into_owned
<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref
<bytes::bytes::Bytes as std::ops::Deref>::deref
<bytes::Bytes as std::ops::Deref>::deref
<sha2::digest::generic_array::GenericArray<T, N> as std::ops::Deref>::deref
core::str::<impl str>::as_bytes
core::str::<impl str>::as_ref
std::string::String::as_bytes
std::string::String::as_str
std::string::String::as_mut_str
std::string::String::into_bytes
std::string::String::into_boxed_str
std::vec::Vec::<T, A>::as_slice
std::vec::Vec::<T, A>::as_mut_slice
std::vec::Vec::<T, A>::into_boxed_slice
std::slice::<impl [T]>::to_vec
std::slice::<impl [T]>::into_vec
std::str::<impl std::borrow::ToOwned for str>::to_owned
std::str::<impl str>::to_owned
std::slice::<impl std::borrow::ToOwned for [T]>::to_owned
std::clone::impls::<impl std::borrow::ToOwned for T>::to_owned
<T as std::borrow::ToOwned>::to_owned
std::borrow::<impl std::borrow::ToOwned for T>::to_owned
std::boxed::Box::<T>::new
std::boxed::Box::<T>::pin
std::boxed::box_assume_init_into_vec_unsafe
std::sync::Arc::<T>::new
std::rc::Rc::<T>::new
std::pin::Pin::<Ptr>::new_unchecked
std::pin::Pin::<Ptr>::new
std::pin::Pin::<Ptr>::as_mut
std::pin::Pin::<Ptr>::get_mut
<F as std::future::IntoFuture>::into_future
std::hint::must_use
anyhow::__private::must_use
serde_bytes::Bytes::new
serde_bytes::ByteBuf::into_vec
serde_bytes::ByteBuf::from
<std::string::String as std::convert::From<&str>>::from
<std::string::String as std::convert::From<&std::string::String>>::from
<std::string::String as std::convert::From<std::boxed::Box<str>>>::from
<std::vec::Vec<T> as std::convert::From<&[T]>>::from
<std::vec::Vec<T> as std::convert::From<[T; N]>>::from
<std::vec::Vec<u8> as std::convert::From<&str>>::from
<std::vec::Vec<u8> as std::convert::From<std::string::String>>::from
std::convert::identity
std::str::from_utf8_unchecked
std::boxed::Box::<T, A>::into_inner
std::boxed::Box::<T, A>::leak
core::array::<impl [T; N]>::as_slice
std::option::Option::<T>::as_slice
tokio::sync::Mutex::<T>::new
std::iter::IntoIterator::into_iter
std::iter::Iterator::by_ref
core::array::<impl std::convert::AsRef<[T]> for [T; N]>::as_ref
""".strip().split("\n"):
    EXACT[n] = identity
# conversions of generic arrays
PREFIX.append(("sha2::digest::generic_array::impls::<impl std::convert::From<", identity))
del EXACT["std::iter::IntoIterator::into_iter"]

TRAIT[("std::convert::AsRef", "as_ref")] = lambda C: identity(C) if "key" not in C.c else NotImplemented
TRAIT[("std::convert::AsMut", "as_mut")] = lambda C: identity(C) if "key" not in C.c else NotImplemented
TRAIT[("std::borrow::Borrow", "borrow")] = lambda C: identity(C) if "key" not in C.c else NotImplemented
TRAIT[("std::ops::Deref", "deref")] = lambda C: identity(C) if "key" not in C.c and strip_is_plain(C) else NotImplemented
TRAIT[("std::borrow::ToOwned", "to_owned")] = lambda C: identity(C)


def strip_is_plain(C):
    v = C.val(0)
    return isinstance(v, (VStr, VSeq, VSSeq))


@tmodel("std::clone::Clone", "clone")
def m_clone(C):
    if "key" in C.c and not C.c.get("derived") and C.c.get("rcrate", "").startswith("openid4vp"):
        return NotImplemented
    a = C.args[0]
    if isinstance(a, VRef) and isinstance(a.x, VRef) and C.ret.k == "ref":
        return C.one(a.x)
    if C.prog.holds_manual(C.ret, "std::clone::Clone"):
        # a derived or library clone reaches a hand-written one
        if C.c.get("key") in C.prog.bodies:
            return NotImplemented
        C.st.note("clone of " + C.ret.s)
    return C.one(C.wrap(C.val(0)))


@tmodel("std::clone::Clone", "clone_from")
def m_clone_from(C):
    C.ex.write_mut(C.st, C.args[0], C.val(1))
    return C.one(UNIT)


@tmodel("std::cmp::PartialEq", "eq", "ne")
def m_eq(C):
    c = C.c
    if c.get("key") in C.prog.bodies and not c.get("derived") and c.get("rcrate", "").startswith("openid4vp"):
        return NotImplemented
    if c.get("rpath") in C.prog.by_path and not c.get("derived"):
        return NotImplemented
    a, b = C.val(0), C.val(1)
    # derived and generic library impls (Option, tuple, &T): run them if they reach hand-written ones
    t = getattr(a, "ty", None)
    if t is not None and C.prog.holds_manual(t, "std::cmp::PartialEq"):
        if c.get("key") in C.prog.bodies:
            return NotImplemented
        C.st.note("comparison of " + t.s)
    f = eq(a, b)
    if c["method"] == "ne":
        f = z3.Not(f)
    return C.one(VBool(z3.simplify(f)))


# ------------------------------------------------------------------ memory
@model("std::mem::replace")
def m_replace(C):
    old = C.ex.read_mut(C.st, C.args[0])
    C.ex.write_mut(C.st, C.args[0], C.args[1])
    return C.one(old)


@model("std::mem::take")
def m_take(C):
    old = C.ex.read_mut(C.st, C.args[0])
    C.ex.write_mut(C.st, C.args[0], default_of(C, old))
    return C.one(old)


def default_of(C, old):
    if isinstance(old, VStr):
        return VStr("")
    if isinstance(old, (VSeq, VSSeq)):
        return VSeq(old.ety, ())
    if isinstance(old, VMap):
        return VMap(EMPTY_MAP, old.kty, old.vty)
    if isinstance(old, (VAdt, VSym)) and old.ty.path == "std::option::Option":
        return VAdt(old.ty, old.ty.vindex("None"), ())
    if isinstance(old, VBool):
        return VBool(False)
    if isinstance(old, VInt):
        return VInt(0)
    raise Unsupported("take")


@model("std::mem::swap")
def m_swap(C):
    a, b = C.ex.read_mut(C.st, C.args[0]), C.ex.read_mut(C.st, C.args[1])
    C.ex.write_mut(C.st, C.args[0], b)
    C.ex.write_mut(C.st, C.args[1], a)
    return C.one(UNIT)


@model("std::mem::drop", "std::mem::forget")
def m_drop(C):
    if C.st.guards and C.c["path"].endswith("drop"):
        for g in guards_in(C.args[0]):
            if g in C.st.guards:
                C.st.release(g)
    return C.one(UNIT)


@model("std::boxed::Box::<T>::new_uninit")
def m_uninit(C):
    return C.one(UNINIT)


@model("std::mem::discriminant", "std::intrinsics::discriminant_value")
def m_discr(C):
    d = C.ex.discriminant(C.val(0))
    if C.ret.k == "int":
        return C.one(VInt(d))
    return C.one(VSym(C.ret, box_int(d)))


@model("core::panicking::unreachable_default_msg", "std::intrinsics::unreachable")
def m_unreach(C):
    return [("panic", C.st, "unreachable")]


@tmodel("std::default::Default", "default")
def m_default(C):
    if "key" in C.c:
        return NotImplemented
    t = C.ret
    k, st_ = shape(t)
    if k == "str":
        return C.one(VStr(""))
    if k == "seq":
        return C.one(VSeq(seq_elem(st_), ()))
    if k == "map":
        return C.one(unbox(st_, box_map(EMPTY_MAP)))
    if k == "bool":
        return C.one(VBool(False))
    if k == "int":
        return C.one(VInt(0))
    if k == "unit":
        return C.one(UNIT)
    if t.path == "std::option::Option":
        return C.one(VAdt(t, t.vindex("None"), ()))
    s = strip(t)
    if s is not t and s.k == "adt":
        return C.one(unbox(t, uf_term("default<" + tyname(s) + ">")))
    return C.one(unbox(t, uf_term("default<" + tyname(t) + ">")))


for n in ["std::vec::Vec::<T>::new", "std::string::String::new", "std::collections::HashMap::<K, V>::new",
          "std::collections::BTreeMap::<K, V>::new", "serde_json::Map::<std::string::String, serde_json::Value>::new",
          "std::vec::Vec::<T>::with_capacity", "std::string::String::with_capacity",
          "serde_json::Map::<std::string::String, serde_json::Value>::with_capacity",
          "std::collections::HashMap::<K, V>::with_capacity"]:
    EXACT[n] = m_default


# ------------------------------------------------------------------ tracing: disabled
@model("<tracing::Level as std::cmp::PartialOrd<tracing::level_filters::LevelFilter>>::le")
def m_level(C):
    return C.one(VBool(False))


@model("tracing::level_filters::LevelFilter::current")
def m_lf(C):
    return C.one(VOpaque("levelfilter"))


# ------------------------------------------------------------------ errors
@model("anyhow::Ok")
def m_aok(C):
    return C.one(C.ok(C.args[0]))


@model("anyhow::__private::format_err", "anyhow::error::<impl anyhow::Error>::msg",
       "anyhow::error::<impl anyhow::Error>::new", "anyhow::error::<impl anyhow::Error>::context",
       "anyhow::error::<impl std::convert::From<E> for anyhow::Error>::from",
       "anyhow::Error::msg", "anyhow::Error::new")
def m_err(C):
    return C.one(VOpaque("err"))


def m_context(C):
    t = C.args[0]
    out = []
    for s, x in C.ex.opt(C.st, t):
        out.append((s, C.ok(x) if x is not None else C.err()))
    return out


for n in ["context", "with_context"]:
    EXACT[f"anyhow::context::<impl anyhow::Context<T, !> for std::option::Option<T>>::{n}"] = m_context
    EXACT[f"anyhow::context::<impl anyhow::Context<T, E> for std::result::Result<T, E>>::{n}"] = m_context
    EXACT[f"anyhow::context::<impl anyhow::Context<T, std::convert::Infallible> for std::option::Option<T>>::{n}"] = m_context


# ------------------------------------------------------------------ formatting
class VArg(V):
    __slots__ = ("c", "v", "dbg")

    def __init__(self, c, v, dbg):
        self.c, self.v, self.dbg = c, v, dbg


class VArgs(V):
    """fmt::Arguments: list of python str pieces and VArg."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)


@model("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug",
       "core::fmt::rt::Argument::<'_>::new_lower_hex", "core::fmt::rt::Argument::<'_>::new_upper_hex")
def m_newdisp(C):
    p = C.c["path"] if "new_" in C.c["path"] else C.c["rpath"]
    return C.one(VArg(C.c, snapshot(C.ex, C.st, C.args[0]), p.rsplit("new_", 1)[1]))


@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def m_argstr(C):
    return C.one(VArgs([C.val(0)]))


@model("std::fmt::Arguments::<'a>::new")
def m_argsnew(C):
    t = C.val(0)
    args = C.val(1)
    if not z3.is_string_value(t.e):
        raise Unsupported("format template")
    b = pybytes(t.e)
    parts, i, nxt = [], 0, 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            parts.append(VStr(bstr(b[i:i + x])))
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            parts.append(VStr(bstr(b[i:i + n])))
            i += n
        elif x & 0xC0 == 0xC0:
            special = False
            if x & 1:
                i += 4
                special = True
            if x & 2:
                i += 2
                special = True
            if x & 4:
                i += 2
                special = True
            if x & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            a = args.xs[nxt]
            nxt += 1
            parts.append(VArg(a.c, a.v, a.dbg + "~special") if special else a)
        else:
            raise Unsupported("format template")
    return C.one(VArgs(parts))


def pybytes(e):
    s = e.as_string()
    out = bytearray()
    i = 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(int(s[i + 3:j], 16))
            i = j + 1
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def concat(xs):
    xs = [x for x in xs if not (z3.is_string_value(x) and x.as_string() == "")]
    if not xs:
        return z3.StringVal("")
    if len(xs) == 1:
        return xs[0]
    return z3.simplify(z3.Concat(*xs))


def render(C, parts):
    """-> [(kind, state, SMT string)]"""
    cur = [("ret", C.st, [])]
    for p in parts:
        nxt = []
        for k, s, acc in cur:
            if k == "panic":
                nxt.append((k, s, acc))
            elif isinstance(p, VStr):
                nxt.append((k, s, acc + [p.e]))
            else:
                for k2, s2, e in display(C.ex, s, p.c, p.v, p.dbg):
                    nxt.append((k2, s2, acc + [e] if k2 == "ret" else e))
        cur = nxt
    return [(k, s, concat(a) if k == "ret" else a) for k, s, a in cur]


def display(ex, st, c, v, mode="display"):
    """The text of v under Display: -> [(kind, state, SMT string)]."""
    x = val(ex, st, v)
    if mode == "display":
        if isinstance(x, VStr):
            return [("ret", st, x.e)]
        if isinstance(x, VArgs):
            C2 = Call(ex, st, c, [])
            return render(C2, x.parts)
        if "disp" in c:
            m = ex.new_cell(st, VFmt(z3.StringVal("")))
            out = []
            for k, s, r in ex.run_body(c["disp"], [VRef(x), m], st):
                if k == "panic":
                    out.append((k, s, r))
                else:
                    out.append(("ret", s, ex.read_mut(s, m).e))
            return out
        if isinstance(x, VInt):
            t = strip(ex.prog.types[c["disp_ty"]]) if "disp_ty" in c else None
            if t is None or t.k == "int":
                return [("ret", st, z3.IntToStr(x.e))]
    tn = tyname(strip(ex.prog.types[c["disp_ty"]])) if "disp_ty" in c else ""
    if mode == "display":
        tn = "display<" + tn + ">"
    else:
        tn = mode
    if tn == "display<url::Url>":
        return [("ret", st, url_str(box(x)))]
    return [("ret", st, tos(uf_term(tn, box(x))))]


def url_str(t):
    r = uf_term("url::Url::as_str", t)
    if not AX.has(r, "us"):
        # printing a URL and parsing it gives the URL back (the url crate's documented guarantee)
        AX.add(r, r != absent)
        AX.add(r, uf_term("parse<url::Url>", r) == ctor_term("std::result::Result", 0, "Ok", 0, [t]))
    return tos(r)


@model("std::fmt::format", "alloc::fmt::format", "std::fmt::format::format_inner")
def m_format(C):
    a = C.val(0)
    return [(k, s, VStr(e) if k == "ret" else e) for k, s, e in render(C, a.parts)]


@model("<T as std::string::ToString>::to_string", "<T as alloc::string::SpecToString>::spec_to_string")
def m_tostring(C):
    return [(k, s, VStr(e) if k == "ret" else e) for k, s, e in display(C.ex, C.st, C.c, C.args[0])]


def fmt_append(C, f, es):
    out = []
    for k, s, e in es:
        if k == "panic":
            out.append((k, s, e))
            continue
        cur = C.ex.read_mut(s, f)
        if not isinstance(cur, VFmt):
            raise Unsupported("formatter")
        C.ex.write_mut(s, f, VFmt(concat([cur.e, e])))
        out.append((s, C.ok(UNIT)))
    return out


def fmut(C, i):
    f = C.args[i]
    while isinstance(f, VRef):
        f = f.x
    if isinstance(f, VMut) and isinstance(C.ex.read_mut(C.st, f), VMut):
        f = C.ex.read_mut(C.st, f)
    return f


@model("std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'a>::pad")
def m_write_str(C):
    return fmt_append(C, fmut(C, 0), [("ret", C.st, C.val(1).e)])


@model("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Write::write_fmt")
def m_write_fmt(C):
    return fmt_append(C, fmut(C, 0), render(C, C.val(1).parts))


@model("<str as std::fmt::Display>::fmt", "<std::string::String as std::fmt::Display>::fmt")
def m_str_fmt(C):
    return fmt_append(C, fmut(C, 1), [("ret", C.st, C.val(0).e)])


@tmodel("std::fmt::Display", "fmt")
def m_disp_fmt(C):
    if "key" in C.c:
        return NotImplemented
    x = C.val(0)
    t = strip(C.prog.types[C.c["ins"][0]])
    e = url_str(box(x)) if t.s == "url::Url" else x.e if isinstance(x, VStr) else tos(uf_term("display<" + tyname(t) + ">", box(x)))
    return fmt_append(C, fmut(C, 1), [("ret", C.st, e)])


# ------------------------------------------------------------------ strings
def pat(C, i):
    p = C.val(i)
    if isinstance(p, VStr):
        return p.e
    if isinstance(p, VInt):
        e = z3.simplify(p.e)
        if z3.is_int_value(e):
            return pstr(chr(e.as_long()))
    raise Unsupported("string pattern")


def pats(C, i):
    """The alternatives of a pattern: one text, or a set of characters."""
    p = C.val(i)
    if isinstance(p, VSeq):
        out = []
        for x in p.xs:
            x = deref(x)
            e = z3.simplify(x.e) if isinstance(x, VInt) else None
            if e is None or not z3.is_int_value(e):
                raise Unsupported("string pattern")
            out.append(pstr(chr(e.as_long())))
        if out:
            return out
    return [pat(C, i)]


def mstr(f):
    return lambda C: f(C, C.val(0).e)


@model("core::str::<impl str>::starts_with", "core::slice::<impl [T]>::starts_with")
@mstr
def m_sw(C, s):
    return C.one(VBool(z3.Or([z3.PrefixOf(p, s) for p in pats(C, 1)])))


@model("core::str::<impl str>::ends_with", "core::slice::<impl [T]>::ends_with")
@mstr
def m_ew(C, s):
    return C.one(VBool(z3.Or([z3.SuffixOf(p, s) for p in pats(C, 1)])))


@model("core::str::<impl str>::contains")
@mstr
def m_contains(C, s):
    return C.one(VBool(z3.Or([z3.Contains(s, p) for p in pats(C, 1)])))


@model("core::str::<impl str>::is_empty", "std::string::String::is_empty")
@mstr
def m_sempty(C, s):
    return C.one(VBool(s == z3.StringVal("")))


@model("core::str::<impl str>::len", "std::string::String::len")
@mstr
def m_slen(C, s):
    return C.one(VInt(z3.Length(s)))


@model("core::str::<impl str>::strip_prefix")
@mstr
def m_strip_prefix(C, s):
    p = pat(C, 1)
    rest = z3.SubString(s, z3.Length(p), z3.Length(s) - z3.Length(p))
    out = []
    for st, b in C.branch(z3.PrefixOf(p, s)):
        if b:
            rest = z3.simplify(rest)
            st.assume(s == z3.Concat(p, rest))
        out.append((st, C.some(VRef(VStr(rest))) if b else C.none()))
    return out


@model("core::str::<impl str>::strip_suffix")
@mstr
def m_strip_suffix(C, s):
    p = pat(C, 1)
    rest = z3.simplify(z3.SubString(s, 0, z3.Length(s) - z3.Length(p)))
    out = []
    for st, b in C.branch(z3.SuffixOf(p, s)):
        if b:
            st.assume(s == z3.Concat(rest, p))
        out.append((st, C.some(VRef(VStr(rest))) if b else C.none()))
    return out


def split_at(s, i, n):
    return (z3.simplify(z3.SubString(s, 0, i)), z3.simplify(z3.SubString(s, i + n, z3.Length(s) - i - n)))


def before_first(s, p):
    return z3.simplify(z3.SubString(s, 0, z3.IndexOf(s, p, 0)))


def after_first(s, p):
    i = z3.IndexOf(s, p, 0)
    n = z3.Length(p)
    return z3.simplify(z3.SubString(s, i + n, z3.Length(s) - i - n))


@model("core::str::<impl str>::split_once")
@mstr
def m_split_once(C, s):
    p = pat(C, 1)
    out = []
    for st, b in C.branch(z3.Contains(s, p)):
        if b:
            x, y = before_first(s, p), after_first(s, p)
            st.assume(s == z3.Concat(x, p, y))
            out.append((st, C.some(VTup([VRef(VStr(x)), VRef(VStr(y))]))))
        else:
            out.append((st, C.none()))
    return out


def last_index(s, p):
    return z3.LastIndexOf(s, p)


@model("core::str::<impl str>::rsplit_once")
@mstr
def m_rsplit_once(C, s):
    p = pat(C, 1)
    out = []
    for st, b in C.branch(z3.Contains(s, p)):
        if b:
            i = last_index(s, p)
            x, y = split_at(s, i, z3.Length(p))
            st.assume(s == z3.Concat(x, p, y))
            out.append((st, C.some(VTup([VRef(VStr(x)), VRef(VStr(y))]))))
        else:
            out.append((st, C.none()))
    return out


@model("core::str::<impl str>::find")
@mstr
def m_find(C, s):
    p = pat(C, 1)
    return C.optional(z3.Contains(s, p), VInt(z3.IndexOf(s, p, 0)))


@model("core::str::<impl str>::rfind")
@mstr
def m_rfind(C, s):
    p = pat(C, 1)
    return C.optional(z3.Contains(s, p), VInt(last_index(s, p)))


SPLIT = fn("str_split", STR, STR, U)


@model("core::str::<impl str>::split", "core::str::<impl str>::splitn")
@mstr
def m_split(C, s):
    if C.c["rpath"].endswith("splitn"):
        n = C.val(1)
        p = pat(C, 2)
        if not (z3.is_int_value(n.e) and n.e.as_long() == 2):
            raise Unsupported("splitn")
        sq = fn("str_split2", STR, STR, U)(s, p)
        if not AX.has(sq, "split"):
            AX.add(sq, z3.If(z3.Contains(s, p), z3.And(slen(sq) == 2, toS(sat_(sq, 0)) == before_first(s, p),
                                                      toS(sat_(sq, 1)) == after_first(s, p)),
                             z3.And(slen(sq) == 1, toS(sat_(sq, 0)) == s)))
    else:
        p = pat(C, 1)
        sq = SPLIT(s, p)
        if not AX.has(sq, "split"):
            AX.add(sq, slen(sq) >= 1)
            AX.add(sq, z3.If(z3.Contains(s, p), z3.And(slen(sq) >= 2, toS(sat_(sq, 0)) == before_first(s, p)),
                             z3.And(slen(sq) == 1, toS(sat_(sq, 0)) == s)))
    ty = C.prog.ty_by_s("str") or C.prog.ty_by_s("std::string::String")
    return C.one(VIter(VSSeq(ty, sq), 0, (("ref", None),)))


for nm in ["trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase"]:
    def mk(nm):
        def f(C):
            return C.one(C.wrap(VStr(fn("str_" + nm, STR, STR)(C.val(0).e))))
        return f
    EXACT[f"core::str::<impl str>::{nm}"] = mk(nm)
    EXACT[f"std::str::<impl str>::{nm}"] = mk(nm)


def trim_end_matches(s, *ps):
    t = fn("str_trim_end_matches" + ("" if len(ps) == 1 else str(len(ps))), STR, *[STR] * len(ps), STR)(s, *ps)
    if not AX.has(t, "tem"):
        for p in ps:
            AX.add(t, z3.simplify(z3.Or(p == z3.StringVal(""), z3.Not(z3.SuffixOf(p, t)))))
        AX.add(t, z3.PrefixOf(t, s))
        AX.add(t, z3.Implies(z3.Not(z3.Or([z3.SuffixOf(p, s) for p in ps])), t == s))
    return t


def trim_start_matches(s, *ps):
    t = fn("str_trim_start_matches" + ("" if len(ps) == 1 else str(len(ps))), STR, *[STR] * len(ps), STR)(s, *ps)
    if not AX.has(t, "tsm"):
        for p in ps:
            AX.add(t, z3.simplify(z3.Or(p == z3.StringVal(""), z3.Not(z3.PrefixOf(p, t)))))
        AX.add(t, z3.SuffixOf(t, s))
        AX.add(t, z3.Implies(z3.Not(z3.Or([z3.PrefixOf(p, s) for p in ps])), t == s))
    return t


@model("core::str::<impl str>::trim_end_matches")
@mstr
def m_tem(C, s):
    return C.one(VRef(VStr(trim_end_matches(s, *sorted(pats(C, 1), key=str)))))


@model("core::str::<impl str>::trim_start_matches")
@mstr
def m_tsm(C, s):
    return C.one(VRef(VStr(trim_start_matches(s, *sorted(pats(C, 1), key=str)))))


@model("core::str::<impl str>::trim_matches")
@mstr
def m_tm(C, s):
    ps = sorted(pats(C, 1), key=str)
    return C.one(VRef(VStr(trim_end_matches(trim_start_matches(s, *ps), *ps))))


@model("core::str::<impl str>::eq_ignore_ascii_case")
@mstr
def m_eic(C, s):
    l = fn("str_to_ascii_lowercase", STR, STR)
    return C.one(VBool(l(s) == l(C.val(1).e)))


@model("std::str::<impl str>::replace", "core::str::<impl str>::replace", "core::str::<impl str>::replacen")
@mstr
def m_replace_s(C, s):
    return C.one(VStr(fn("str_replace_all", STR, STR, STR, STR)(s, pat(C, 1), C.val(2).e)))


@model("std::string::String::from_utf8", "core::str::from_utf8", "std::str::from_utf8")
def m_from_utf8(C):
    s = C.val(0)
    rt = C.ret
    ok = fn("is_utf8", STR, BOOL)(s.e)
    if z3.is_string_value(s.e) and all(x < 128 for x in pybytes(s.e)):
        ok = z3.BoolVal(True)
    inner = rt.field_ty(rt.vindex("Ok"), 0)
    return C.result(ok, rewrap(inner, s))


@model("std::string::String::from_utf8_lossy", "std::string::String::from_utf8_lossy_owned")
def m_from_utf8_lossy(C):
    """Leaves text as it is; what it makes of other bytes is not known."""
    s = C.val(0)
    if z3.is_string_value(s.e) and all(x < 128 for x in pybytes(s.e)):
        return C.one(rewrap(C.ret, s))
    r = fn("utf8_lossy", STR, STR)(s.e)
    if not AX.has(r, "lossy"):
        AX.add(r, z3.Implies(fn("is_utf8", STR, BOOL)(s.e), r == s.e))
    return C.one(rewrap(C.ret, VStr(r)))


@model("std::string::String::push_str", "std::vec::Vec::<T, A>::extend_from_slice", "std::vec::Vec::<T, A>::append")
def m_push_str(C):
    m = C.args[0]
    cur = C.ex.read_mut(C.st, m)
    add = C.val(1)
    C.ex.write_mut(C.st, m, seq_concat(C, cur, add))
    return C.one(UNIT)


def seq_concat(C, a, b):
    if isinstance(a, VStr):
        return VStr(concat([a.e, b.e]))
    if isinstance(a, VSeq) and isinstance(b, VSeq):
        return VSeq(a.ety, a.xs + b.xs)
    if isinstance(a, VSeq) and not a.xs:
        return b
    if isinstance(b, VSeq) and not b.xs:
        return a
    return VSSeq(a.ety, seq_cat_term(box(a), box(b)))


def seq_cat_term(x, y):
    t = fn("seq_cat", U, U, U)(x, y)
    if not AX.has(t, "cat"):
        AX.add(t, slen(t) == slen_term(x) + slen_term(y))
        i = z3.Int("i~cat")
        AX.add(t, forall([i], z3.Implies(z3.And(i >= 0, i < slen(x)), sat_(t, i) == sat_(x, i)), sat_(t, i)))
        AX.add(t, forall([i], z3.Implies(z3.And(i >= 0, i < slen(y)), sat_(t, slen(x) + i) == sat_(y, i)), sat_(y, i)))
        AX.add(t, forall([i], z3.Implies(z3.And(i >= slen(x), i < slen(t)), sat_(t, i) == sat_(y, i - slen(x))), sat_(t, i)))
        AX.add(t, t != absent)
    return t


@model("std::string::String::push")
def m_push_c(C):
    m = C.args[0]
    cur = C.ex.read_mut(C.st, m)
    C.ex.write_mut(C.st, m, VStr(concat([cur.e, pat(C, 1)])))
    return C.one(UNIT)


@model("std::slice::<impl [T]>::concat", "std::slice::<impl [T]>::join")
def m_concat(C):
    xs = C.val(0)
    if not isinstance(xs, VSeq):
        if C.c["rpath"].endswith("join") or True:
            return C.one(unbox(C.ret, uf_term(C.c["rpath"].rsplit("::", 1)[1], *[box(C.val(i)) for i in range(len(C.args))])))
    parts = [val(C.ex, C.st, x) for x in xs.xs]
    sep = C.val(1) if len(C.args) > 1 else None
    if shape(C.ret)[0] == "str":
        es = []
        for i, p in enumerate(parts):
            if i and sep is not None:
                es.append(sep.e if isinstance(sep, VStr) else bstr([z3.simplify(sep.e).as_long()]))
            es.append(p.e)
        return C.one(VStr(concat(es)))
    if sep is None:
        r = VSeq(seq_elem(C.ret), ())
        for p in parts:
            r = seq_concat(C, r, p)
        return C.one(r)
    raise Unsupported("join")


@tmodel("std::ops::Add", "add")
def m_add(C):
    a = C.val(0)
    if isinstance(a, VStr):
        return C.one(VStr(concat([a.e, C.val(1).e])))
    if isinstance(a, VInt):
        return C.one(VInt(a.e + C.val(1).e))
    return NotImplemented


@tmodel("std::ops::AddAssign", "add_assign")
def m_addassign(C):
    a = C.val(0)
    if isinstance(a, VStr):
        C.ex.write_mut(C.st, C.args[0], VStr(concat([a.e, C.val(1).e])))
        return C.one(UNIT)
    return NotImplemented


@tmodel("std::cmp::PartialOrd", "partial_cmp", "lt", "le", "gt", "ge")
def m_pcmp(C):
    if "key" in C.c or C.c.get("rpath") in C.prog.by_path:
        return NotImplemented
    a, b = C.val(0), C.val(1)
    m = C.c["method"]
    if isinstance(a, VInt) and isinstance(b, VInt):
        x, y = a.e, b.e
        if m != "partial_cmp":
            return C.one(VBool({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[m]))
        ot = C.ret.field_ty(C.ret.vindex("Some"), 0)
        t = z3.If(x < y, box(VAdt(ot, 0, ())), z3.If(x == y, box(VAdt(ot, 1, ())), box(VAdt(ot, 2, ()))))
        out = []
        for s, i in C.ex.branch(C.st, [(x < y, 0), (x == y, 1), (x > y, 2)]):
            out.append((s, C.some(VAdt(ot, i, ()))))
        return out
    return NotImplemented


@tmodel("std::cmp::Ord", "cmp")
def m_cmp(C):
    if "key" in C.c:
        return NotImplemented
    a, b = C.val(0), C.val(1)
    if isinstance(a, VInt) and isinstance(b, VInt):
        return [(s, VAdt(C.ret, i, ())) for s, i in C.ex.branch(C.st, [(a.e < b.e, 0), (a.e == b.e, 1), (a.e > b.e, 2)])]
    if isinstance(a, VStr) and isinstance(b, VStr):
        return [(s, VAdt(C.ret, i, ())) for s, i in C.ex.branch(C.st, [(a.e < b.e, 0), (a.e == b.e, 1), (z3.And(a.e != b.e, z3.Not(a.e < b.e)), 2)])]
    return NotImplemented


# ------------------------------------------------------------------ sequences
def seqval(C, i):
    v = C.val(i)
    if not isinstance(v, (VSeq, VSSeq, VStr, VLazy)):
        raise Unsupported(f"sequence expected, {type(v).__name__}")
    return v


@model("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty")
def m_vempty(C):
    v = seqval(C, 0)
    if isinstance(v, VLazy):
        return [(k, s, VBool(r is None) if k == "ret" else r) for k, s, r in C.ex.first_match(C.st, v.it)]
    if isinstance(v, VStr):
        return C.one(VBool(v.e == z3.StringVal("")))
    return C.one(VBool(z3.simplify(C.ex.length(v) == 0)))


@model("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len")
def m_vlen(C):
    v = seqval(C, 0)
    if isinstance(v, VLazy):
        # the number of elements that pass is only known to be zero or not
        n = slen(box(v))
        out = []
        for k, s, r in C.ex.first_match(C.st, v.it):
            if k == "ret":
                s.assume(n == 0 if r is None else n > 0)
            out.append((k, s, VInt(z3.IntVal(0) if r is None else n) if k == "ret" else r))
        return out
    return C.one(VInt(C.ex.length(seqval(C, 0))))


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::get", "core::slice::<impl [T]>::last")
def m_first(C):
    v = seqval(C, 0)
    if isinstance(v, VLazy):
        if not C.c["rpath"].endswith("first"):
            raise Unsupported("indexing a filtered collection")
        return [(k, s, (C.some(VRef(r[0])) if r else C.none()) if k == "ret" else r) for k, s, r in C.ex.first_match(C.st, v.it)]
    n = C.ex.length(v)
    nm = C.c["rpath"].rsplit("::", 1)[1]
    if nm == "get" and not isinstance(C.val(1), VInt):
        ab = range_of(C.val(1), n)
        if ab is None:
            raise Unsupported("slice range get")
        a, b = ab
        return [(s, C.some(VRef(slice_of(C, v, a, b))) if g else C.none())
                for s, g in C.branch(z3.simplify(z3.And(a >= 0, a <= b, b <= n)))]
    i = z3.IntVal(0) if nm == "first" else n - 1 if nm == "last" else C.val(1).e
    i = z3.simplify(i)
    out = []
    for s, b in C.branch(z3.simplify(z3.And(i >= 0, i < n))):
        out.append((s, C.some(VRef(C.ex.get1(v, ("i", VInt(i))))) if b else C.none()))
    return out


@model("core::slice::<impl [T]>::split_first")
def m_split_first(C):
    v = seqval(C, 0)
    n = C.ex.length(v)
    out = []
    for s, b in C.branch(z3.simplify(n > 0)):
        if b:
            h = C.ex.get1(v, ("i", VInt(0)))
            t = C.ex.get1(v, ("s", 1, 0, True))
            out.append((s, C.some(VTup([VRef(h), VRef(t)]))))
        else:
            out.append((s, C.none()))
    return out


@tmodel("std::ops::Index", "index")
def m_index(C):
    v = C.val(0)
    i = C.val(1)
    if isinstance(v, VMap):
        k = box(i)
        f = z3.Select(v.arr, k) != absent
        return [(s, VRef(unbox(v.vty, z3.Select(v.arr, k)))) if b else ("panic", s, "map index: key absent") for s, b in C.branch(f)]
    if isinstance(v, (VSeq, VSSeq)) and isinstance(i, VInt):
        n = C.ex.length(v)
        out = []
        for s, b in C.branch(z3.simplify(z3.And(i.e >= 0, i.e < n))):
            out.append((s, VRef(C.ex.get1(v, ("i", i)))) if b else ("panic", s, "index out of bounds"))
        return out
    if isinstance(v, (VSym, VAdt)) and v.ty.path == "serde_json::Value":
        return [(s, x if x is not None else VRef(J(C.prog, "Null"))) for s, x in json_at(C, v, i)]
    if isinstance(v, (VStr, VSeq, VSSeq)) and isinstance(i, (VIter, VAdt)):
        n = z3.Length(v.e) if isinstance(v, VStr) else C.ex.length(v)
        ab = range_of(i, n)
        if ab is None:
            return NotImplemented
        a, b = ab
        out = []
        for s, g in C.branch(z3.simplify(z3.And(a >= 0, a <= b, b <= n))):
            out.append((s, VRef(slice_of(C, v, a, b))) if g else ("panic", s, "slice out of range"))
        return out
    return NotImplemented


def range_of(i, n):
    """Bounds of a range value applied to something of length n; None: not a range that is understood."""
    if isinstance(i, VIter):
        if isinstance(i.base, tuple) and i.base[0] == "range" and not i.stages and not i.rev:
            return i.base[1], i.base[2]
        return None
    if not isinstance(i, VAdt):
        return None
    if i.ty.path == "std::ops::RangeFrom":
        return i.fs[0].e, n
    if i.ty.path == "std::ops::RangeTo":
        return z3.IntVal(0), i.fs[0].e
    if i.ty.path == "std::ops::RangeFull":
        return z3.IntVal(0), n
    return None


def slice_of(C, v, a, b):
    """v[a..b], for bounds known to be in order."""
    a, b = z3.simplify(a), z3.simplify(b)
    if isinstance(v, VStr):
        return VStr(z3.simplify(z3.SubString(v.e, a, b - a)))
    if z3.is_int_value(a) and z3.simplify(b).eq(z3.simplify(C.ex.length(v))) and a.as_long() == 0:
        return v
    if isinstance(v, VSeq):
        if z3.is_int_value(a) and z3.is_int_value(b):
            return VSeq(v.ety, v.xs[a.as_long():b.as_long()])
        v = VSSeq(v.ety, box(v))
    return C.ex.subseq(v, a, b)


@model("std::vec::Vec::<T, A>::truncate")
def m_vtruncate(C):
    m = C.args[0]
    cur = C.ex.read_mut(C.st, m)
    if not isinstance(cur, (VStr, VSeq, VSSeq)):
        raise Unsupported("truncate")
    n, k = (z3.Length(cur.e) if isinstance(cur, VStr) else C.ex.length(cur)), C.val(1).e
    out = []
    for s, g in C.branch(z3.simplify(k >= n)):
        if not g:
            C.ex.write_mut(s, m, slice_of(C, cur, z3.IntVal(0), k))
        out.append((s, UNIT))
    return out


@model("std::vec::Vec::<T, A>::shrink_to_fit", "std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::shrink_to",
       "std::vec::Vec::<T, A>::reserve_exact", "std::string::String::shrink_to_fit", "std::string::String::reserve")
def m_vnop(C):
    return C.one(UNIT)


@model("std::vec::Vec::<T, A>::capacity", "std::string::String::capacity")
def m_vcapacity(C):
    """Any number that is not less than the length."""
    v = seqval(C, 0)
    n = z3.Length(v.e) if isinstance(v, VStr) else C.ex.length(v)
    C.ex.fid += 1
    c = z3.Int(f"capacity~{C.ex.fid}")
    C.st.assume(c >= n)
    return C.one(VInt(c))


@tmodel("std::iter::Iterator", "take")
@tmodel("std::iter::Iterator", "skip")
def m_take_n(C):
    it = itval(C)
    n_ = C.val(1)
    # (stages that give one item per element commute with take and skip)
    if any(k not in ("ref", "deref", "map") for k, _ in it.stages) or it.rev or it.pos != 0 or it.end is not None or not isinstance(it.base, (VSeq, VSSeq)) or not isinstance(n_, VInt):
        raise Unsupported("take/skip of an adapted iterator")
    n = C.ex.length(it.base)
    first = C.c["method"] == "take"
    k = n_
    out = []
    for s, g in C.branch(z3.simplify(k.e >= n)):
        if first:
            b = it.base if g else slice_of(C, it.base, z3.IntVal(0), k.e)
        else:
            b = VSeq(it.base.ety, ()) if g else slice_of(C, it.base, k.e, n)
        out.append((s, VIter(b, 0, it.stages)))
    return out


@tmodel("std::cmp::Ord", "min")
@tmodel("std::cmp::Ord", "max")
def m_minmax(C):
    a, b = C.val(0), C.val(1)
    if not (isinstance(a, VInt) and isinstance(b, VInt)):
        return NotImplemented
    lo = C.c["method"] == "min"
    return C.one(VInt(z3.simplify(z3.If((a.e <= b.e) if lo else (a.e > b.e), a.e, b.e))))


@model("core::slice::<impl [T]>::contains")
def m_scontains(C):
    v = seqval(C, 0)
    x = eta(C.val(1))
    if isinstance(v, VStr):
        raise Unsupported("byte contains")
    if isinstance(v, VLazy):
        st = v.it.stages + (("eqfilter", x),)
        return any_of(C, VIter(v.it.base, v.it.pos, st, v.it.rev))
    if isinstance(v, VSeq):
        return C.one(VBool(z3.simplify(z3.Or([eq(y, x) for y in v.xs])) if v.xs else z3.BoolVal(False)))
    return C.one(VBool(seq_contains(v.t, box(x))))


def seq_contains(t, x):
    """SMT Bool: x occurs in sequence t (same term for the same question; defined by quantifiers)."""
    b = fn("contains", U, U, BOOL)(t, x)
    if not AX.has(b, "contains"):
        w = fn("contains_at", U, U, INT)(t, x)
        AX.add(b, z3.Implies(b, z3.And(w >= 0, w < slen_term(t), sat_(t, w) == x)))
        i = z3.Int("i~ct")
        AX.add(b, z3.Implies(z3.Not(b), forall([i], z3.Implies(z3.And(i >= 0, i < slen(t)), sat_(t, i) != x), sat_(t, i))))
        for z in (x,):
            pass
    return b


def exe_mod():
    import exe
    return exe


@model("std::vec::Vec::<T, A>::push")
def m_vpush(C):
    m = C.args[0]
    cur = C.ex.read_mut(C.st, m)
    x = C.args[1]
    if isinstance(cur, VSeq):
        C.ex.write_mut(C.st, m, VSeq(cur.ety, cur.xs + (x,)))
    elif isinstance(cur, exe_mod().VAcc):
        C.ex.write_mut(C.st, m, exe_mod().VAcc(cur.ety, cur.src, cur.added + (x,)))
    elif isinstance(cur, VStr):
        e = z3.simplify(x.e)
        C.ex.write_mut(C.st, m, VStr(concat([cur.e, bstr([e.as_long()]) if z3.is_int_value(e) else z3.StrFromCode(e)])))
    elif isinstance(cur, VSSeq):
        C.ex.write_mut(C.st, m, VSSeq(cur.ety, seq_cat_term(cur.t, seq_term([box(x)]))))
    else:
        raise Unsupported("push")
    return C.one(UNIT)


@model("std::vec::Vec::<T, A>::pop")
def m_vpop(C):
    m = C.args[0]
    cur = C.ex.read_mut(C.st, m)
    if isinstance(cur, VSeq):
        if not cur.xs:
            return C.one(C.none())
        C.ex.write_mut(C.st, m, VSeq(cur.ety, cur.xs[:-1]))
        return C.one(C.some(cur.xs[-1]))
    raise Unsupported("pop")


@model("std::vec::Vec::<T, A>::clear", "std::string::String::clear")
def m_vclear(C):
    cur = C.ex.read_mut(C.st, C.args[0])
    C.ex.write_mut(C.st, C.args[0], default_of(C, cur))
    return C.one(UNIT)


class VLazy(V):
    """A Vec collected from an iterator whose length is not known: kept as the iterator."""
    __slots__ = ("it", "ety")

    def __init__(self, it, ety):
        self.it, self.ety = it, ety


@BOXERS.append
def box_extra(x):
    if isinstance(x, VLazy):
        return box(x.it)
    if isinstance(x, VArgs):
        return z3.Const("opaque~fmtargs", U)
    if isinstance(x, VGen):
        return box(x.it)


# ------------------------------------------------------------------ iterators
def as_iter(C, a, st=None):
    """Iterator value from an IntoIterator argument."""
    byref = isinstance(a, VRef) or isinstance(a, VMut)
    x = val(C.ex, st or C.st, a)
    stg = (("ref", None),) if byref else ()
    if isinstance(x, VIter):
        return x
    if isinstance(x, VLazy):
        return VIter(x.it.base, x.it.pos, x.it.stages + stg, x.it.rev)
    if isinstance(x, (VSeq, VSSeq)):
        return VIter(x, 0, stg)
    if isinstance(x, VMap):
        t = uf_term("map_entries", box(x))
        return VIter(VSSeq(None, t), 0, (("entry", (x, x.kty, x.vty or C.prog.ty_by_s("serde_json::Value"), byref)),))
    if isinstance(x, (VAdt, VSym)) and x.ty.path == "std::option::Option":
        return x
    raise Unsupported(f"iteration over {type(x).__name__}")


@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::into_iter")
def m_iter(C):
    return C.one(as_iter(C, VRef(C.val(0))))


@tmodel("std::iter::IntoIterator", "into_iter")
def m_into_iter(C):
    a = C.args[0]
    x = val(C.ex, C.st, a)
    if isinstance(x, (VIter, VGen)):
        return C.one(a if isinstance(a, VMut) else x)
    if isinstance(x, VSym) and C.ret is x.ty and not isinstance(a, (VRef, VMut)) and "key" not in C.c:
        # an iterator made by a dependency: its elements are an unknown sequence
        return C.one(VIter(VSSeq(None, uf_term("elements", x.t)), 0))
    if isinstance(x, (VAdt, VSym)) and x.ty.path not in ("std::option::Option", "std::result::Result"):
        return NotImplemented
    if isinstance(x, (VAdt, VSym)):
        out = []
        for s, y in C.ex.opt(C.st, x):
            out.append((s, VIter(VSeq(None, () if y is None else ((VRef(y) if isinstance(a, VRef) else y),)), 0)))
        return out
    return C.one(as_iter(C, a))


def itval(C):
    a = C.args[0]
    x = val(C.ex, C.st, a)
    if isinstance(x, VGen):
        raise Unsupported("adapter on an iterator inside its own loop")
    if not isinstance(x, VIter):
        if isinstance(x, VSym):
            # an iterator produced by a dependency: its elements are an unknown sequence
            t = iter_item_ty(C, x.ty)
            return VIter(VSSeq(t, uf_term("elements", x.t)), 0)
        raise Unsupported(f"iterator expected, {type(x).__name__}")
    return x


def iter_item_ty(C, ty):
    return None


def staged(kind, with_f=True):
    def f(C):
        it = itval(C)
        return C.one(VIter(it.base, it.pos, it.stages + ((kind, C.args[1] if with_f else None),), it.rev))
    return f


TRAIT[("std::iter::Iterator", "map")] = staged("map")
TRAIT[("std::iter::Iterator", "filter")] = staged("filter")
TRAIT[("std::iter::Iterator", "filter_map")] = staged("filter_map")
TRAIT[("std::iter::Iterator", "cloned")] = staged("deref", False)
TRAIT[("std::iter::Iterator", "copied")] = staged("deref", False)
TRAIT[("std::iter::Iterator", "flatten")] = staged("flat", False)


@tmodel("std::iter::Iterator", "flat_map")
def m_flat_map(C):
    it = itval(C)
    return C.one(VIter(it.base, it.pos, it.stages + (("map", C.args[1]), ("flat", None)), it.rev))


@tmodel("std::iter::Iterator", "rev")
def m_rev(C):
    it = itval(C)
    if it.pos != 0:
        raise Unsupported("rev of a started iterator")
    return C.one(VIter(it.base, 0, it.stages, not it.rev))


@tmodel("std::iter::Iterator", "chain")
def m_chain(C):
    it = itval(C)
    o = as_iter(C, C.args[1])
    if isinstance(it.base, VSeq) and isinstance(o, VIter) and isinstance(o.base, VSeq) and it.pos == 0 and o.pos == 0 \
            and not it.rev and not o.rev:
        xs, st = [], C.st
        ok = True
        for src in (it, o):
            for x in src.base.xs:
                r = C.ex.stage(st, src.stages, x)
                if len(r) != 1 or r[0][0] != "ret":
                    ok = False
                    break
                st = r[0][1]
                if r[0][2] is not None:
                    xs.append(r[0][2])
        if ok:
            return [(st, VIter(VSeq(it.base.ety, xs), 0))]
    if not it.stages and not getattr(o, "stages", None) or it.stages == getattr(o, "stages", None):
        if it.pos == 0 and o.pos == 0 and not it.rev and not o.rev:
            return C.one(VIter(VSSeq(it.base.ety, seq_cat_term(box(it.base), box(o.base))), 0, it.stages))
    raise Unsupported("chain")


@tmodel("std::iter::Iterator", "next")
def m_next(C):
    a = C.args[0]
    while isinstance(a, VRef):
        a = a.x
    cellref = a
    while isinstance(cellref, VMut):
        x = C.ex.read_mut(C.st, cellref)
        if isinstance(x, VMut):
            cellref = x
        else:
            break
    if isinstance(x, VGen):
        if x.done:
            raise Unsupported("two next() calls in one loop iteration")
        C.ex.write_mut(C.st, cellref, VGen(x.it, True))
        out = []
        for k, s, v in C.ex.stage(C.st, x.it.stages, C.ex.iter_at(x.it, x.it.pos)):
            if k == "ret" and v is None:
                out.append(("skip", s, None))
                continue
            if isinstance(v, VRaw):
                v = unbox(C.ret.field_ty(C.ret.vindex("Some"), 0), v.t)
            out.append((k, s, C.some(v) if k == "ret" else v))
        return out
    if "key" in C.c and not isinstance(x, VIter):
        return NotImplemented
    if not isinstance(x, VIter):
        raise Unsupported("next on " + type(x).__name__)
    n = C.ex.iter_concrete(x)
    if n is None and C.ex.loopctx and C.ex.loopctx[-1] is not None and isinstance(x.pos, int):
        raise SymLoop(C.ex.loopctx[-1], (cellref.cell, cellref.path))
    out = []
    for k, s, r in C.ex.first_match(C.st, x):
        if k == "panic":
            out.append((k, s, r))
        elif r is None:
            C.ex.write_mut(s, cellref, VIter(VSeq(None, ()), 0))
            out.append((s, C.none()))
        else:
            C.ex.write_mut(s, cellref, r[1])
            out.append((s, C.some(r[0])))
    return out


def any_of(C, it):
    """Whether the iterator yields anything: one boolean formula if the closures are pure."""
    b = nested_any(C, it)
    if b is not None:
        return C.one(VBool(b))
    rs = C.ex.first_match(C.st, it)
    return [(k, s, VBool(r is not None) if k == "ret" else r) for k, s, r in rs]


def nested_any(C, it):
    """Inside code that is itself generalised over an index, the question is one quantified formula
    (or None if the closures do not allow that)."""
    ex = C.ex
    if exe_mod().NAMING[0] or ex.iter_concrete(it) is not None:
        return None
    ln = ex.iter_len(it)
    lo = it.pos if not isinstance(it.pos, int) else z3.IntVal(it.pos)
    if any(s[0] == "flat" for s in it.stages):
        return None
    i = z3.Int(fresh_name("idx"))
    g = C.st.fork()
    g.assume(i >= lo)
    g.assume(i < ln)
    if not ex.feasible(g):
        return z3.BoolVal(False)
    mark = sym._fresh[0]
    npc, ntr = len(g.pc), len(g.trace)
    Y = []
    for k, s, v in ex.stage(g, it.stages, ex.iter_at(it, i)):
        if k == "panic" or len(s.trace) != ntr:
            return None
        if v is not None:
            fs = s.pc[npc:]
            ex.check_ground(fs, i, mark)
            Y.append(z3.And(fs) if fs else z3.BoolVal(True))
    y = z3.simplify(z3.Or(Y)) if Y else z3.BoolVal(False)
    if z3.is_false(y):
        return y
    j = z3.Int("j~na")
    return z3.Exists([j], z3.And(j >= lo, j < ln, z3.substitute(y, (i, j))))


@tmodel("std::iter::Iterator", "any")
def m_any(C):
    it = itval(C)
    return any_of(C, VIter(it.base, it.pos, it.stages + (("map", C.args[1]), ("true", None)), it.rev))


@tmodel("std::iter::Iterator", "all")
def m_all(C):
    it = itval(C)
    it = VIter(it.base, it.pos, it.stages + (("map", C.args[1]), ("false", None)), it.rev)
    b = nested_any(C, it)
    if b is not None:
        return C.one(VBool(z3.simplify(z3.Not(b))))
    rs = C.ex.first_match(C.st, it)
    return [(k, s, VBool(r is None) if k == "ret" else r) for k, s, r in rs]


@tmodel("std::iter::Iterator", "find")
def m_findit(C):
    it = itval(C)
    return [(k, s, (C.none() if r is None else C.some(r[0])) if k == "ret" else r)
            for k, s, r in C.ex.first_match(C.st, it, ("filter", C.args[1]))]


@tmodel("std::iter::Iterator", "find_map")
def m_find_map(C):
    it = itval(C)
    return [(k, s, (C.none() if r is None else C.some(r[0])) if k == "ret" else r)
            for k, s, r in C.ex.first_match(C.st, it, ("filter_map", C.args[1]))]


@tmodel("std::iter::Iterator", "collect")
def m_collect(C):
    it = itval(C)
    return collect(C, it, C.ret)


def concrete_items(C, it):
    """Runs a concrete-length pipeline: [(kind, state, [values])]"""
    n = C.ex.iter_concrete(it)
    cur = [("ret", C.st, [])]
    for p in range(it.pos, n):
        nxt = []
        for k, s, acc in cur:
            if k == "panic":
                nxt.append((k, s, acc))
                continue
            for k2, s2, v in C.ex.stage(s, it.stages, C.ex.iter_at(it, p)):
                nxt.append((k2, s2, v if k2 == "panic" else acc if v is None else acc + [v]))
        cur = nxt
    return cur


SETS = ("std::collections::HashSet", "std::collections::BTreeSet")
SETOF = fn("set_of", U, U)


def collect(C, it, rt):
    tgt = strip(rt)
    n = C.ex.iter_concrete(it)
    if n is not None and isinstance(it.pos, int) and not any(s[0] == "flat" for s in it.stages):
        out = []
        for k, s, xs in concrete_items(C, it):
            if k == "panic":
                out.append((k, s, xs))
                continue
            out.extend(build(C, s, xs, rt))
        return out
    if tgt.k == "adt" and tgt.path == "std::result::Result" or tgt.path == "std::option::Option":
        return collect_try(C, it, rt)
    k, t = shape(rt)
    if k == "seq":
        if it.pos == 0 and not any(s[0] not in ("map", "deref", "ref", "id") for s in it.stages):
            # total, pure map: a comprehension
            i = z3.Int(fresh_name("idx"))
            mark = sym._fresh[0]
            g = C.st.fork()
            g.assume(i >= 0)
            g.assume(i < C.ex.iter_len(it))
            npc, ntr = len(g.pc), len(g.trace)
            rs = C.ex.stage_all(g, it.stages, C.ex.iter_at(it, i))
            if len(rs) == 1 and rs[0][0] == "ret" and len(rs[0][1].trace) == ntr and len(rs[0][1].pc) == npc:
                b = box(rs[0][2])
                C.ex.check_ground([b], i, mark)
                return C.one(C.ex.comprehension(it, i, b, seq_elem(t)))
            if all(r[0] == "ret" for r in rs) and all(len(r[1].trace) == ntr for r in rs):
                b = None
                for k_, s, v in reversed(rs):
                    c = z3.And(s.pc[npc:]) if s.pc[npc:] else z3.BoolVal(True)
                    b = box(v) if b is None else z3.If(c, box(v), b)
                C.ex.check_ground([b], i, mark)
                return C.one(C.ex.comprehension(it, i, b, seq_elem(t)))
        return C.one(VLazy(it, seq_elem(t)))
    if k == "map":
        return C.one(unbox(rt, uf_term("collect_map", box(it))))
    if k == "str":
        return C.one(unbox(rt, uf_term("collect_str", box(it))))
    if tgt.path in SETS:
        if it.pos == 0 and all(x[0] in ("deref", "ref", "id") for x in it.stages) and isinstance(it.base, VSSeq) and not it.rev:
            return C.one(VSym(tgt, SETOF(it.base.t)))
    raise Unsupported("collect into " + rt.s)


def collect_try(C, it, rt):
    """collect::<Result<Vec<_>, _>>: fails at the first failing element."""
    tgt = strip(rt)
    good = "Ok" if tgt.path.endswith("Result") else "Some"
    gi = tgt.vindex(good)
    inner = tgt.field_ty(gi, 0)
    bad = "Err" if good == "Ok" else "None"
    i = z3.Int(fresh_name("idx"))
    mark = sym._fresh[0]
    n = C.ex.iter_len(it)
    if it.pos != 0 or any(s[0] in ("filter", "filter_map", "flat", "cases") for s in it.stages):
        raise Unsupported("fallible collect of a filtered iterator")
    g = C.st.fork()
    g.assume(i >= 0)
    g.assume(i < n)
    npc, ntr = len(g.pc), len(g.trace)
    okc, okv, out = [], [], []
    for k, s, v in C.ex.stage_all(g, it.stages, C.ex.iter_at(it, i)):
        if k == "panic" or len(s.trace) != ntr:
            raise Unsupported("effects or panics in a fallible collect")
        for s2, x in C.ex.opt(s, v):
            if x is not None:
                fs = s2.pc[npc:]
                C.ex.check_ground(fs, i, mark)
                okc.append(z3.And(fs) if fs else z3.BoolVal(True))
                okv.append(x)
    P = z3.simplify(z3.Or(okc)) if okc else z3.BoolVal(False)
    j = z3.Int("j~ct")
    allok = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.substitute(P, (i, j))))
    if z3.is_true(P):
        allok = z3.BoolVal(True)
    for s, b in C.ex.branch(C.st, [(allok, True), (z3.Not(allok), False)]):
        if b:
            body = None
            for c, x in reversed(list(zip(okc, okv))):
                body = box(x) if body is None else z3.If(c, box(x), body)
            if body is None:
                v = VSeq(seq_elem(inner), ())
            elif shape(inner)[0] == "seq":
                v = C.ex.comprehension(it, i, body, seq_elem(strip(inner)))
            else:
                v = unbox(inner, uf_term("collect:" + tyname(inner), box(C.ex.comprehension(it, i, body, None))))
            out.append((s, VAdt(tgt, gi, [v])))
        else:
            out.append((s, VAdt(tgt, tgt.vindex(bad), [VOpaque("err")] if bad == "Err" else [])))
    return out


def build(C, st, xs, rt):
    tgt = strip(rt)
    k, t = shape(rt)
    if k == "seq":
        return [(st, VSeq(seq_elem(t), xs))]
    if k == "str":
        return [(st, VStr(concat([val(C.ex, st, x).e if isinstance(val(C.ex, st, x), VStr) else z3.StrFromCode(x.e) for x in xs])))]
    if k == "map":
        m = unbox(t, box_map(EMPTY_MAP))
        for x in xs:
            kx, vx = (x.fs[0], x.fs[1]) if isinstance(x, VTup) else (C.ex.get1(x, ("f", None, 0, None)), C.ex.get1(x, ("f", None, 1, None)))
            m = VMap(z3.Store(m.arr, box(kx), box(vx)), m.kty, m.vty)
        return [(st, m)]
    if tgt.path in ("std::result::Result", "std::option::Option"):
        good = "Ok" if tgt.path.endswith("Result") else "Some"
        gi = tgt.vindex(good)
        cur = [(st, [], None)]
        for x in xs:
            nxt = []
            for s, acc, e in cur:
                if e is not None:
                    nxt.append((s, acc, e))
                    continue
                for s2, y in C.ex.opt(s, x):
                    nxt.append((s2, acc + [y], None) if y is not None else (s2, acc, True))
            cur = nxt
        out = []
        for s, acc, e in cur:
            if e is not None:
                bi = tgt.vindex("Err" if good == "Ok" else "None")
                out.append((s, VAdt(tgt, bi, [VOpaque("err")] if good == "Ok" else [])))
            else:
                for s2, v in build(C, s, acc, tgt.field_ty(gi, 0)):
                    out.append((s2, VAdt(tgt, gi, [v])))
        return out
    if tgt.k == "tuple" and not tgt.d["es"]:
        return [(st, UNIT)]
    if tgt.path in SETS:
        return [(st, VSym(tgt, SETOF(seq_term([box(x) for x in xs]))))]
    raise Unsupported("collect into " + rt.s)


# ------------------------------------------------------------------ sets (membership only: no order, no size)
@model("std::collections::HashSet::<T, S>::contains", "std::collections::HashSet::<T, S, A>::contains", "std::collections::BTreeSet::<T, A>::contains")
def m_set_contains(C):
    v = C.val(0)
    if not (isinstance(v, VSym) and z3.is_app(v.t) and v.t.decl().name() == "set_of"):
        raise Unsupported("set")
    return C.one(VBool(seq_contains(v.t.arg(0), box(eta(C.val(1))))))


@model("std::collections::HashSet::<T, S>::is_empty", "std::collections::HashSet::<T, S, A>::is_empty", "std::collections::BTreeSet::<T, A>::is_empty")
def m_set_empty(C):
    v = C.val(0)
    if not (isinstance(v, VSym) and z3.is_app(v.t) and v.t.decl().name() == "set_of"):
        raise Unsupported("set")
    return C.one(VBool(slen_term(v.t.arg(0)) == 0))


@model("std::collections::HashSet::<T>::new", "std::collections::BTreeSet::<T>::new")
def m_set_new(C):
    return C.one(VSym(C.ret, SETOF(seq_term([]))))


@model("std::collections::HashSet::<T, S>::insert", "std::collections::HashSet::<T, S, A>::insert", "std::collections::BTreeSet::<T, A>::insert")
def m_set_insert(C):
    m = C.args[0]
    v = C.ex.read_mut(C.st, m)
    if not (isinstance(v, VSym) and z3.is_app(v.t) and v.t.decl().name() == "set_of"):
        raise Unsupported("set")
    x = box(C.args[1])
    old = v.t.arg(0)
    C.ex.write_mut(C.st, m, VSym(v.ty, SETOF(seq_cat_term(old, seq_term([x])))))
    return C.one(VBool(z3.simplify(z3.Not(seq_contains(old, x)))))


@tmodel("std::iter::Iterator", "count")
def m_count(C):
    it = itval(C)
    if not it.stages or all(s[0] in ("map", "ref", "deref") for s in it.stages):
        return C.one(VInt(C.ex.iter_len(it) - it.pos))
    raise Unsupported("count")


@tmodel("std::iter::Iterator", "for_each")
def m_for_each(C):
    it = itval(C)
    n = C.ex.iter_concrete(it)
    if n is None:
        raise Unsupported("for_each over unknown length")
    cur = [("ret", C.st)]
    for p in range(it.pos, n):
        nxt = []
        for k, s in cur:
            for k2, s2, v in C.ex.stage(s, it.stages + (("map", C.args[1]),), C.ex.iter_at(it, p)):
                if k2 == "panic":
                    return [(k2, s2, v)]
                nxt.append((k2, s2))
        cur = nxt
    return [(s, UNIT) for k, s in cur]


@tmodel("std::iter::Iterator", "try_for_each")
def m_try_for_each(C):
    it = itval(C)
    n = C.ex.iter_concrete(it)
    if n is None or not isinstance(it.pos, int):
        raise Unsupported("try_for_each over unknown length")
    t = strip(C.ret)
    if t.path not in ("std::result::Result", "std::option::Option"):
        raise Unsupported("try_for_each of this kind")
    cur, out = [C.st], []
    for p in range(it.pos, n):
        nxt = []
        for s in cur:
            for k2, s2, v in C.ex.stage(s, it.stages + (("map", C.args[1]),), C.ex.iter_at(it, p)):
                if k2 == "panic":
                    out.append((k2, s2, v))
                    continue
                if v is None:
                    nxt.append(s2)
                    continue
                for s3, y in C.ex.opt(s2, v):
                    if y is not None:
                        nxt.append(s3)
                    else:
                        out.append((s3, v))
        cur = nxt
    return out + [(s, C.ok(UNIT) if t.path.endswith("Result") else C.some(UNIT)) for s in cur]


@model("std::iter::once")
def m_once(C):
    return C.one(VIter(VSeq(None, (C.args[0],)), 0))


@model("std::iter::empty")
def m_empty_iter(C):
    return C.one(VIter(VSeq(None, ()), 0))


@model("<std::collections::HashMap<K, V> as std::convert::From<[(K, V); N]>>::from", "<std::collections::BTreeMap<K, V> as std::convert::From<[(K, V); N]>>::from")
def m_map_from_array(C):
    x = C.val(0)
    if not isinstance(x, VSeq):
        return NotImplemented
    return build(C, C.st, list(x.xs), C.ret)


@tmodel("std::iter::Iterator", "last")
def m_last(C):
    it = itval(C)
    if it.stages and any(s[0] not in ("map", "ref", "deref") for s in it.stages) or it.pos != 0:
        raise Unsupported("last")
    r = VIter(it.base, 0, it.stages, not it.rev)
    return [(k, s, (C.none() if x is None else C.some(x[0])) if k == "ret" else x) for k, s, x in C.ex.first_match(C.st, r)]


@tmodel("std::iter::Iterator", "position")
def m_position(C):
    it = itval(C)
    out = []
    n = C.ex.iter_concrete(it)
    for k, s, r in C.ex.first_match(C.st, VIter(it.base, it.pos, it.stages + (("map", C.args[1]), ("true", None)), it.rev)):
        if k == "panic":
            out.append((k, s, r))
        elif r is None:
            out.append((s, C.none()))
        else:
            p = r[1].pos
            out.append((s, C.some(VInt(p - 1 if isinstance(p, int) else z3.simplify(p - 1)))))
    return out


@tmodel("std::iter::Iterator", "nth")
def m_nth(C):
    it = itval(C)
    n = C.val(1)
    if z3.is_int_value(n.e) and isinstance(it.pos, int) and all(s[0] in ("map", "ref", "deref") for s in it.stages):
        k = it.pos + n.e.as_long()
        ln = C.ex.iter_len(it)
        out = []
        for s, b in C.branch(z3.simplify(z3.IntVal(k) < ln)):
            if not b:
                out.append((s, C.none()))
            else:
                for kk, s2, v in C.ex.stage(s, it.stages, C.ex.iter_at(it, k)):
                    out.append((kk, s2, C.some(v) if kk == "ret" else v))
        return out
    raise Unsupported("nth")


@tmodel("std::iter::Extend", "extend")
def m_extend(C):
    m = C.args[0]
    cur = C.ex.read_mut(C.st, m)
    it = as_iter(C, C.args[1])
    if isinstance(cur, (VSeq, VSSeq)) and isinstance(it, VIter):
        out = []
        for k, s, v in [x if len(x) == 3 else ("ret",) + x for x in collect(C, it, SeqTy(cur.ety))]:
            if k == "panic":
                out.append((k, s, v))
                continue
            C.ex.write_mut(s, m, seq_concat(C, C.ex.read_mut(s, m), v))
            out.append((s, UNIT))
        return out
    return NotImplemented


class SeqTy:
    """Stand-in type: Vec<ety>."""

    def __init__(self, ety):
        self.ety = ety
        self.k, self.path, self.s = "slice", "", "[]"
        self.d = {}

    @property
    def elem(self):
        return self.ety


# ------------------------------------------------------------------ maps
def mapval(C, i=0):
    v = C.val(i)
    if not isinstance(v, VMap):
        raise Unsupported(f"map expected, {type(v).__name__}")
    return v


MAPP = ["serde_json::Map::<std::string::String, serde_json::Value>::", "std::collections::HashMap::<K, V, S, A>::",
        "std::collections::BTreeMap::<K, V, A>::", "std::collections::HashMap::<K, V, S>::"]


def mapmodel(*ms):
    def d(f):
        for m in ms:
            for p in MAPP:
                EXACT[p + m] = f
        return f
    return d


def vty(C, m):
    if m.vty is not None:
        return m.vty
    return C.prog.ty_by_s("serde_json::Value")


@mapmodel("get")
def m_mget(C):
    m = mapval(C)
    k = box(C.val(1))
    x = z3.simplify(z3.Select(m.arr, k))
    out = []
    for s, b in C.branch(x != absent):
        out.append((s, C.some(VRef(unbox(vty(C, m), x))) if b else C.none()))
    return out


@mapmodel("get_mut")
def m_mgetmut(C):
    a = C.args[0]
    m = mapval(C)
    k = box(C.val(1))
    x = z3.simplify(z3.Select(m.arr, k))
    out = []
    for s, b in C.branch(x != absent):
        out.append((s, C.some(VMut(a.cell, a.path + (("key", k, vty(C, m)),))) if b else C.none()))
    return out


@mapmodel("contains_key")
def m_mck(C):
    m = mapval(C)
    return C.one(VBool(z3.simplify(z3.Select(m.arr, box(C.val(1))) != absent)))


@mapmodel("insert")
def m_minsert(C):
    a = C.args[0]
    m = mapval(C)
    k = box(C.val(1))
    x = z3.simplify(z3.Select(m.arr, k))
    new = box(C.args[2])
    out = []
    for s, b in C.branch(x != absent):
        C.ex.write_mut(s, a, VMap(z3.Store(m.arr, k, new), m.kty, m.vty))
        out.append((s, C.some(unbox(vty(C, m), x)) if b else C.none()))
    return out


@mapmodel("remove", "shift_remove", "swap_remove")
def m_mremove(C):
    a = C.args[0]
    m = mapval(C)
    k = box(C.val(1))
    x = z3.simplify(z3.Select(m.arr, k))
    out = []
    for s, b in C.branch(x != absent):
        if b:
            C.ex.write_mut(s, a, VMap(z3.Store(m.arr, k, absent), m.kty, m.vty))
        out.append((s, C.some(unbox(vty(C, m), x)) if b else C.none()))
    return out


@mapmodel("is_empty")
def m_mempty(C):
    m = mapval(C)
    return C.one(VBool(m.arr == EMPTY_MAP))


@mapmodel("len")
def m_mlen(C):
    m = mapval(C)
    e = fn("map_len", UM, INT)(m.arr)
    if not AX.has(e, "ml"):
        AX.add(e, e >= 0)
        AX.add(e, (e == 0) == (m.arr == EMPTY_MAP))
    return C.one(VInt(e))


@mapmodel("keys", "iter", "values", "into_iter", "into_keys", "into_values")
def m_mkeys(C):
    m = mapval(C)
    nm = C.c["rpath"].rsplit("::", 1)[1].replace("into_", "")
    t = uf_term("map_" + nm, box_map(m.arr))
    ety = {"keys": m.kty or C.prog.ty_by_s("std::string::String"), "values": vty(C, m)}.get(nm)
    if nm == "keys":
        # every key occurs at some index; every listed key is present; empty iff the map is
        if not AX.has(t, "keys"):
            i = z3.Int("i~ky")
            AX.add(t, forall([i], z3.Implies(z3.And(i >= 0, i < slen(t)), z3.Select(m.arr, sat_(t, i)) != absent), sat_(t, i)))
            AX.add(t, (slen(t) == 0) == (m.arr == EMPTY_MAP))
    if ety is None:
        return C.one(VIter(VSSeq(None, t), 0, (("pair", (m.kty, vty(C, m))),)))
    return C.one(VIter(VSSeq(ety, t), 0, (("ref", None),)))


# ------------------------------------------------------------------ JSON
def jty(C):
    return C.prog.ty_by_s("serde_json::Value")


def J(prog, variant, *fs):
    ty = prog.ty_by_s("serde_json::Value")
    return VAdt(ty, ty.vindex(variant), fs)


def j_is(prog, v, variant):
    """SMT Bool: JSON value v has this kind."""
    ty = prog.ty_by_s("serde_json::Value")
    v = deref(v)
    if isinstance(v, VAdt):
        return z3.BoolVal(v.v == ty.vindex(variant))
    return disc_term(ty, box(v)) == ty.discr(ty.vindex(variant))


def j_payload(prog, v, variant):
    ty = prog.ty_by_s("serde_json::Value")
    v = deref(v)
    vi = ty.vindex(variant)
    if isinstance(v, VAdt):
        return v.fs[0]
    return unbox(ty.field_ty(vi, 0), fld_term("serde_json::Value", variant, 0, box(v)))


def json_kind(variant, ref=True):
    def f(C):
        v = C.val(0)
        if isinstance(v, VRaw):
            v = VSym(jty(C), v.t)
        out = []
        for s, b in C.branch(z3.simplify(j_is(C.prog, v, variant))):
            p = j_payload(C.prog, v, variant) if b else None
            out.append((s, C.some(VRef(p) if ref else p) if b else C.none()))
        return out
    return f


EXACT["serde_json::Value::as_str"] = json_kind("String")
EXACT["serde_json::Value::as_object"] = json_kind("Object")
EXACT["serde_json::Value::as_array"] = json_kind("Array")
EXACT["serde_json::Value::as_bool"] = json_kind("Bool", False)
for nm, va in [("string", "String"), ("object", "Object"), ("array", "Array"), ("boolean", "Bool"), ("null", "Null"), ("number", "Number")]:
    EXACT[f"serde_json::Value::is_{nm}"] = (lambda va: lambda C: C.one(VBool(z3.simplify(j_is(C.prog, C.val(0), va)))))(va)


def json_at(C, v, k):
    """[(state, reference to the entry or None)] for a key of an object or an index of an array."""
    out = []
    want = "Array" if isinstance(k, VInt) else "Object"
    for s, b in C.branch(z3.simplify(j_is(C.prog, v, want))):
        if not b:
            out.append((s, None))
            continue
        p = deref(j_payload(C.prog, v, want))
        C2 = Call(C.ex, s, C.c, C.args)
        if want == "Array":
            i = z3.simplify(k.e)
            for s2, b2 in C2.branch(z3.simplify(z3.And(i >= 0, i < C.ex.length(p)))):
                out.append((s2, VRef(C.ex.get1(p, ("i", VInt(i)))) if b2 else None))
            continue
        x = z3.simplify(z3.Select(p.arr, box(k)))
        for s2, b2 in C2.branch(x != absent):
            out.append((s2, VRef(unbox(jty(C), x)) if b2 else None))
    return out


@model("serde_json::Value::pointer")
def m_jpointer(C):
    """JSON pointer, for a literal path of object keys (a key of digits could also be an index: not modelled)."""
    p = C.val(1)
    e = z3.simplify(p.e) if isinstance(p, VStr) else None
    if e is None or not z3.is_string_value(e):
        return NotImplemented
    path = e.as_string()
    if "\\u{" in path or (path and not path.startswith("/")):
        return NotImplemented
    keys = [k.replace("~1", "/").replace("~0", "~") for k in path.split("/")[1:]]
    if any(k == "" or k.isdigit() for k in keys):
        return NotImplemented
    todo = [(C.st, VRef(C.val(0)))]
    for k in keys:
        nxt = []
        for s, x in todo:
            if x is None:
                nxt.append((s, None))
            else:
                nxt += json_at(Call(C.ex, s, C.c, C.args), deref(x), VStr(k))
        todo = nxt
    return [(s, C.some(x) if x is not None else C.none()) for s, x in todo]


@model("serde_json::Value::get")
def m_jget(C):
    return [(s, C.some(x) if x is not None else C.none()) for s, x in json_at(C, C.val(0), C.val(1))]


@model("serde_json::value::from::<impl std::convert::From<std::string::String> for serde_json::Value>::from",
       "serde_json::value::from::<impl std::convert::From<&str> for serde_json::Value>::from",
       "serde_json::value::from::<impl std::convert::From<&'a str> for serde_json::Value>::from")
def m_jfroms(C):
    return C.one(J(C.prog, "String", C.val(0)))


@model("serde_json::value::from::<impl std::convert::From<serde_json::Map<std::string::String, serde_json::Value>> for serde_json::Value>::from")
def m_jfromm(C):
    return C.one(J(C.prog, "Object", C.val(0)))


@model("serde_json::value::from::<impl std::convert::From<bool> for serde_json::Value>::from")
def m_jfromb(C):
    return C.one(J(C.prog, "Bool", C.val(0)))


@model("serde_json::value::from::<impl std::convert::From<std::vec::Vec<T>> for serde_json::Value>::from")
def m_jfromv(C):
    return to_json(C, VSeqTy(C), C.val(0), False)


def VSeqTy(C):
    return C.prog.types[C.c["ins"][0]]


def to_json(C, ty, v, as_result=True):
    """to_value: exact for strings, booleans, maps, JSON and vectors of them."""
    t = strip(ty)
    x = val(C.ex, C.st, v)
    wrap = C.ok if as_result else (lambda z: z)
    k, _ = shape(t)
    if k == "str" and not (t.k in ("slice", "array") or t.path == "std::vec::Vec"):
        return C.one(wrap(J(C.prog, "String", x)))
    if k == "bool":
        return C.one(wrap(J(C.prog, "Bool", x)))
    if t.path == "serde_json::Value":
        return C.one(wrap(x))
    if t.path == "serde_json::Map":
        return C.one(wrap(J(C.prog, "Object", x)))
    if k == "seq" and isinstance(x, (VSeq, VSSeq)):
        et = strip(seq_elem(t))
        ek = shape(et)[0]
        if et.path == "serde_json::Value" or (ek == "str" and not (et.k in ("slice", "array") or et.path == "std::vec::Vec")):
            def conv(y):
                return y if et.path == "serde_json::Value" else J(C.prog, "String", val(C.ex, C.st, y))
            if isinstance(x, VSeq):
                return C.one(wrap(J(C.prog, "Array", VSeq(jty(C), [conv(y) for y in x.xs]))))
            if et.path == "serde_json::Value":
                return C.one(wrap(J(C.prog, "Array", VSSeq(jty(C), x.t))))
            i = z3.Int(fresh_name("idx"))
            it = VIter(x, 0)
            body = box(conv(C.ex.iter_at(it, i)))
            return C.one(wrap(J(C.prog, "Array", C.ex.comprehension(it, i, body, jty(C)))))
    return None


@model("serde_json::to_value")
def m_to_value(C):
    r = to_json(C, C.ty(0), C.args[0])
    if r is not None:
        return r
    # (a deterministic function of the value; names ignore reference levels)
    t = strip(C.ty(0))
    nm = "to_value<" + tyname(t) + ">"
    C.ex.externals[nm] = C.ex.externals.get(nm, 0) + 1
    return C.one(unbox(C.ret, uf_term(nm, box(C.val(0)))))


@model("serde_json::from_value")
def m_from_value(C):
    v = C.val(0)
    t = C.ty(0)
    p = C.prog
    k, st_ = shape(t)
    if isinstance(v, VRaw):
        v = VSym(jty(C), v.t)
    if t.path == "std::string::String":
        return [(s, C.ok(j_payload(p, v, "String")) if b else C.err()) for s, b in C.branch(z3.simplify(j_is(p, v, "String")))]
    if t.path == "serde_json::Value":
        return C.one(C.ok(v))
    if t.path == "serde_json::Map":
        return [(s, C.ok(j_payload(p, v, "Object")) if b else C.err()) for s, b in C.branch(z3.simplify(j_is(p, v, "Object")))]
    if t.path.endswith("::UntypedObject"):
        # #[serde(transparent)]-like newtype: checked by C18's serialisation obligations
        return [(s, C.ok(VAdt(t, 0, [j_payload(p, v, "Object")])) if b else C.err()) for s, b in C.branch(z3.simplify(j_is(p, v, "Object")))]
    if t.path == "std::vec::Vec" and t.arg(0).path in ("std::string::String", "serde_json::Value"):
        str_elems = t.arg(0).path == "std::string::String"
        out = []
        for s, b in C.branch(z3.simplify(j_is(p, v, "Array"))):
            if not b:
                out.append((s, C.err()))
                continue
            a = deref(j_payload(p, v, "Array"))
            if not str_elems:
                out.append((s, C.ok(a)))
                continue
            C2 = Call(C.ex, s, C.c, C.args)
            if isinstance(a, VSeq):
                okf = z3.And([j_is(p, x, "String") for x in a.xs]) if a.xs else z3.BoolVal(True)
                for s2, b2 in C2.branch(z3.simplify(okf)):
                    out.append((s2, C.ok(VSeq(t.arg(0), [j_payload(p, x, "String") for x in a.xs])) if b2 else C.err()))
            else:
                j = z3.Int("j~fv")
                jt = jty(C)
                okf = forall([j], z3.Implies(z3.And(j >= 0, j < slen_term(a.t)), disc(sat_(a.t, j)) == jt.discr(jt.vindex("String"))), sat_(a.t, j))
                i = z3.Int(fresh_name("idx"))
                it = VIter(a, 0)
                body = box(j_payload(p, C.ex.iter_at(it, i), "String"))
                for s2, b2 in C2.branch(okf):
                    out.append((s2, C.ok(C.ex.comprehension(it, i, body, t.arg(0))) if b2 else C.err()))
        return out
    if t.path == "url::Url":
        out = []
        for s, b in C.branch(z3.simplify(j_is(p, v, "String"))):
            if not b:
                out.append((s, C.err()))
                continue
            r = parse_url_term(p, deref(j_payload(p, v, "String")).e)
            C2 = Call(C.ex, s, C.c, C.args)
            out += [(s2, C.ok(VSym(t, fld_term("std::result::Result", "Ok", 0, r))) if b2 else C.err()) for s2, b2 in C2.branch(disc(r) == 0)]
        return out
    nm = "from_value<" + tyname(t) + ">"
    C.ex.externals[nm] = C.ex.externals.get(nm, 0) + 1
    return C.one(unbox(C.ret, uf_term(nm, box(v))))


def parse_url_term(prog, s):
    """The Result of parsing a string as a URL, as a term."""
    r = uf_term("parse<url::Url>", box_str(s))
    if not AX.has(r, "pu"):
        AX.add(r, z3.Or(disc(r) == 0, disc(r) == 1))
        s = r.arg(0).arg(0) if r.arg(0).decl().name() == "mkS" else toS(r.arg(0))
        # printing a URL and parsing it gives the URL back (the url crate's documented guarantee)
        if z3.is_app(s) and s.decl().name() == "toS" and s.arg(0).decl().name() == "uf~url::Url::as_str":
            AX.add(r, r == ctor_term("std::result::Result", 0, "Ok", 0, [s.arg(0).arg(0)]))
        if z3.is_string_value(s) and re.fullmatch(rb"https?://[a-z0-9]+([.-][a-z0-9]+)*(/[A-Za-z0-9_./-]*)?|(?!https?:|ftp:|file:|wss?:)[a-z][a-z0-9+.-]*:", pybytes(s)):
            # plain literals are valid URLs
            AX.add(r, disc(r) == 0)
    return r


@model("serde_json::to_string", "serde_json::to_vec")
def m_to_string(C):
    t = strip(C.ty(0))
    nm = "json_text<" + tyname(t) + ">"
    C.ex.externals[nm] = C.ex.externals.get(nm, 0) + 1
    x = box(C.val(0))
    if t.path == "serde_json::Value" or t.path == "serde_json::Map":
        # always succeeds on JSON values
        if t.path == "serde_json::Map":
            x = box(J(C.prog, "Object", C.val(0)))
        return C.one(C.ok(VStr(tos(uf_term("json_text", x)))))
    r = uf_term("to_value<" + tyname(t) + ">", x)
    rt = C.ret
    okc = fn("json_text_ok<" + tyname(t) + ">", U, BOOL)(x)
    return C.result(okc, VStr(tos(uf_term(nm, x))))


@model("serde_json::from_str", "serde_json::from_slice")
def m_from_str(C):
    t = C.ty(0)
    s = C.val(0).e
    nm = "from_json_text<" + tyname(t) + ">"
    C.ex.externals[nm] = C.ex.externals.get(nm, 0) + 1
    return C.one(unbox(C.ret, uf_term(nm, box_str(s))))


# ------------------------------------------------------------------ futures
@model("std::future::get_context", "std::task::Context::<'a>::from_waker")
def m_ctx(C):
    return C.one(VOpaque("ctx"))


@tmodel("std::future::Future", "poll")
def m_poll(C):
    v = C.val(0)
    rt = C.ret
    out_ty = rt.arg(0)

    def ready(x):
        return VAdt(rt, rt.vindex("Ready"), [x])
    if isinstance(v, VClo) and v.ty.k == "coroutine":
        key = v.ty.d["key"]
        if key not in C.prog.bodies:
            return env_event(C, "coroutine:" + v.ty.d["path"], list(v.fs), ready, out_ty)
        rs = C.ex.run_body(key, [v, VOpaque("resume")], C.st)
        return [(k, s, ready(x) if k == "ret" else x) for k, s, x in rs]
    if isinstance(v, VFut):
        if v.run is not None:
            return [(k, s, ready(x) if k == "ret" else x) for k, s, x in v.run(C.ex, C.st)]
        return env_event(C, v.name, v.args, ready, out_ty)
    if isinstance(v, VSym):
        return env_event(C, "future", [v], ready, out_ty)
    raise Unsupported("poll of " + type(v).__name__)


def env_event(C, name, args, ready, out_ty):
    st = C.st
    n = sum(1 for e in st.trace if e.name == name)
    t = uf_term(f"result:{name}#{n}")
    r = unbox(out_ty, t)
    st.trace.append(Event(name, args, r))
    return [(st, ready(r))]


# ------------------------------------------------------------------ tokio mutex
LOCKS = {"tokio::sync::Mutex", "tokio::sync::RwLock", "std::sync::Mutex", "std::sync::RwLock", "std::cell::RefCell"}
keep_alive = []


def shared_state(C):
    """(cell, term, content type) of the lock or cell that is the first argument."""
    t = box(C.val(0))
    keep_alive.append(t)
    return ("heap", t.get_id()), t, strip(C.prog.types[C.c["ins"][0]]).arg(0)


def acquire(C, s, cell, t, inner):
    """Opens a critical section. What an earlier section left may have been changed by others since, so the content
    is arbitrary each time."""
    n = len(s.sections)
    v = unbox(inner, uf_term("mutex_content", t) if not n else uf_term(f"mutex_content#{n}", t))
    s.cells[cell] = v
    s.guards[n] = (cell, None, n)
    s.sections.append((cell, v, None))
    return VGuard(cell, n)


def held(C, cell):
    return any(c == cell for c, _, _ in C.st.guards.values())


@model("tokio::sync::Mutex::<T>::try_lock", "tokio::sync::RwLock::<T>::try_read", "tokio::sync::RwLock::<T>::try_write",
       "std::sync::Mutex::<T>::try_lock", "std::sync::RwLock::<T>::try_read", "std::sync::RwLock::<T>::try_write",
       "std::cell::RefCell::<T>::try_borrow", "std::cell::RefCell::<T>::try_borrow_mut")
def m_trylock(C):
    """Fails if someone, ourselves included, holds the lock."""
    cell, t, inner = shared_state(C)
    if held(C, cell):
        C.st.sections.append("busy")
        return [(C.st, C.err())]
    busy = fn("mutex_busy", U, INT, BOOL)(t, len(C.st.sections))
    out = []
    for s, b in C.branch(z3.Not(busy)):
        if b:
            out.append((s, C.ok(acquire(C, s, cell, t, inner))))
        else:
            s.sections.append("busy")
            out.append((s, C.err()))
    return out


@model("std::sync::Mutex::<T>::lock", "std::sync::RwLock::<T>::read", "std::sync::RwLock::<T>::write")
def m_lock(C):
    cell, t, inner = shared_state(C)
    if held(C, cell):
        return [("panic", C.st, "lock taken twice")]
    poisoned = fn("mutex_poisoned", U, INT, BOOL)(t, len(C.st.sections))
    out = []
    for s, b in C.branch(z3.Not(poisoned)):
        g = acquire(C, s, cell, t, inner)
        out.append((s, C.ok(g) if b else C.err(g)))
    return out


EXACT["std::sync::PoisonError::<T>::into_inner"] = lambda C: C.one(C.args[0])


@model("tokio::sync::Mutex::<T>::lock", "tokio::sync::RwLock::<T>::read", "tokio::sync::RwLock::<T>::write")
def m_alock(C):
    cell, t, inner = shared_state(C)

    def run(ex, st):
        if any(c == cell for c, _, _ in st.guards.values()):
            return [("panic", st, "lock taken twice")]
        return [("ret", st, acquire(C, st, cell, t, inner))]
    return C.one(VFut("lock", [], C.ret, run))


@model("std::cell::RefCell::<T>::borrow", "std::cell::RefCell::<T>::borrow_mut")
def m_borrow(C):
    cell, t, inner = shared_state(C)
    if not z3.is_const(t) or not t.decl().name().startswith(("static~", "const~", "tls~")):
        return C.ex.models.external(C)
    if held(C, cell):
        return [("panic", C.st, "already borrowed")]
    return C.one(acquire(C, C.st, cell, t, inner))


def m_guard(C):
    return C.one(VRef(C.val(0)))


def m_guardm(C):
    a = C.args[0]
    v = C.ex.read_mut(C.st, a)
    return C.one(VMut(v.cell, v.path) if isinstance(v, VMut) else a)


for _g in ("tokio::sync::MutexGuard<'_, T>", "tokio::sync::RwLockReadGuard<'_, T>", "tokio::sync::RwLockWriteGuard<'_, T>",
           "std::sync::MutexGuard<'_, T>", "std::sync::RwLockReadGuard<'_, T>", "std::sync::RwLockWriteGuard<'_, T>",
           "std::cell::Ref<'_, T>", "std::cell::RefMut<'_, T>"):
    EXACT[f"<{_g} as std::ops::Deref>::deref"] = m_guard
    EXACT[f"<{_g} as std::ops::DerefMut>::deref_mut"] = m_guardm


def arbitrary(C, what):
    """What a variable that outlives the call happens to hold: anything."""
    return unbox(C.ret, z3.Const(fresh_name("state~" + what), U))


def m_arbitrary(C):
    return C.one(arbitrary(C, "mem"))


PREFIX.append(("std::sync::atomic::Atomic", m_arbitrary))
for _f in ("get", "replace", "take", "set", "swap"):
    EXACT["std::cell::Cell::<T>::" + _f] = m_arbitrary
for _f in ("get", "set", "take"):
    EXACT["std::sync::OnceLock::<T>::" + _f] = m_arbitrary
    EXACT["tokio::sync::OnceCell::<T>::" + _f] = m_arbitrary
    EXACT["std::cell::OnceCell::<T>::" + _f] = m_arbitrary


@model("std::sync::OnceLock::<T>::get_or_init", "std::cell::OnceCell::<T>::get_or_init")
def m_get_or_init(C):
    """The value of the closure that ran first: of this one, if it depends on nothing."""
    f = C.val(1)
    if isinstance(f, VFn) or isinstance(f, VClo) and not f.fs:
        return [(k, s, VRef(v) if k == "ret" else v) for k, s, v in C.ex.apply(C.st, C.args[1], [])]
    return C.one(arbitrary(C, "once"))


@model("std::thread::LocalKey::<T>::with")
def m_tls(C):
    t = strip(C.prog.types[C.c["ins"][0]]).arg(0)
    k = box(C.val(0))
    return C.ex.apply(C.st, C.args[1], [VRef(VSym(t, z3.Const("tls~" + digest(k), U)))])


# ------------------------------------------------------------------ http builders
def hb(m, u, h):
    return ctor_term("httpreq-builder", 0, "0", None, [m, u, h])


NOBODY = z3.Const("http~unset", U)


@model("http::Request::<()>::builder", "http::request::Builder::new")
def m_rb(C):
    return C.one(VSym(C.ret, hb(z3.Const("http~GET", U), NOBODY, box_map(EMPTY_MAP))))


def rb_parts(t):
    return [fld_term("httpreq-builder", "0", i, t) for i in range(3)]


def plain_term(C, i):
    v = C.val(i)
    if isinstance(v, VSym) and v.ty is not None and v.ty.path == "url::Url":
        return box_str(url_str(v.t))
    t = box(v)
    n = t.decl().name() if z3.is_const(t) else ""
    n = n[:-2] if n.endswith("<>") else n
    if n.endswith("Method::GET") or (isinstance(v, VStr) and z3.is_string_value(v.e) and v.e.as_string() == "GET"):
        return z3.Const("http~GET", U)
    if n.endswith("Method::POST") or (isinstance(v, VStr) and z3.is_string_value(v.e) and v.e.as_string() == "POST"):
        return z3.Const("http~POST", U)
    return t


@model("http::request::Builder::method")
def m_rbm(C):
    m, u, h = rb_parts(box(C.val(0)))
    return C.one(VSym(C.ret, hb(plain_term(C, 1), u, h)))


@model("http::request::Builder::uri")
def m_rbu(C):
    m, u, h = rb_parts(box(C.val(0)))
    return C.one(VSym(C.ret, hb(m, plain_term(C, 1), h)))


@model("http::request::Builder::header")
def m_rbh(C):
    m, u, h = rb_parts(box(C.val(0)))
    k = C.val(1)
    if isinstance(k, VStr):
        kt = box_str(lower_const(k.e))
    else:
        kt = header_name(box(k))
    return C.one(VSym(C.ret, hb(m, u, box_map(z3.Store(tom(h), kt, plain_term(C, 2))))))


def header_name(t):
    n = t.decl().name() if z3.is_const(t) else ""
    m = re.match(r"(?:const|static)~.*header(?:::name)?::([A-Z_]+)(?:<>)?$", n)
    if m:
        return box_str(pstr(m.group(1).lower().replace("_", "-")))
    return t


def lower_const(e):
    if z3.is_string_value(e):
        return strval(pybytes(e).decode("latin-1").lower())
    return fn("str_to_ascii_lowercase", STR, STR)(e)


@model("http::request::Builder::body")
def m_rbb(C):
    m, u, h = rb_parts(box(C.val(0)))
    ok = fn("http_request_valid", U, U, U, BOOL)(m, u, h)
    req = ctor_term("http::Request", 0, "0", None, [m, u, h, box(C.args[1])])
    rt = C.ret
    return C.result(ok, VSym(rt.field_ty(rt.vindex("Ok"), 0), req))


for pth in ["http::Request::<T>::body", "http::Request::<T>::into_body"]:
    EXACT[pth] = lambda C: C.one(C.wrap(unbox(strip(C.ret), fld_term("http::Request", "0", 3, box(C.val(0))))))
EXACT["http::Request::<T>::uri"] = lambda C: C.one(C.wrap(VSym(strip(C.ret), fld_term("http::Request", "0", 1, box(C.val(0))))))
EXACT["http::Request::<T>::method"] = lambda C: C.one(C.wrap(VSym(strip(C.ret), fld_term("http::Request", "0", 0, box(C.val(0))))))

RESP_BODY, RESP_STATUS = "http::Response::<T>::into_body<std::vec::Vec<u8>>", "http::Response::<T>::status<std::vec::Vec<u8>>"


@model("http::Response::<T>::into_parts")
def m_resp_parts(C):
    t = box(C.val(0))
    pt, bt = C.ret.elems
    parts = uf_term("http::Response::parts", t)
    # struct Parts { status, version, headers, extensions, .. }
    if not AX.has(parts, "parts"):
        AX.add(parts, fld_term(adt_name(pt), pt.vname(0), 0, parts) == uf_term(RESP_STATUS, t))
    return C.one(VTup([VSym(pt, parts), unbox(bt, uf_term(RESP_BODY, t))]))


@model("anyhow::__private::not")
def m_anyhow_not(C):
    """The negation in ensure!."""
    return C.one(VBool(z3.Not(C.val(0).e)))


@model("http::Response::<T>::body")
def m_resp_body(C):
    return C.one(VRef(unbox(strip(C.ret), uf_term(RESP_BODY, box(C.val(0))))))


@model("http::StatusCode::as_u16")
def m_status_u16(C):
    t = box(C.val(0))
    n = fn("status_code", U, INT)(t)
    if not AX.has(n, "status"):
        AX.add(n, z3.And(n >= 100, n <= 999))
        for name, lo in (("success", 200), ("informational", 100), ("redirection", 300), ("client_error", 400), ("server_error", 500)):
            AX.add(n, tob(uf_term("http::StatusCode::is_" + name, t)) == z3.And(n >= lo, n < lo + 100))
    return C.one(VInt(n))


known_ext(
    "split_jws", "jwt_decode_unverified", "jwt_decode_verify", "base64::Engine::decode", "base64::Engine::encode",
    "x509_cert::der::Decode::from_der", "x509_cert::der::Encode::to_der",
    "x509_cert::certificate::TbsCertificateInner::<P>::filter", "http::Response::<T>::into_body",
    "http::Response::<T>::status", "http::StatusCode::is_success", "url::Url::authority", "url::Url::path",
    "url::Url::query", "url::Url::set_query", "url::Url::as_str", "url::Url::path_segments_mut",
    "url::PathSegmentsMut::<'_>::push", "serde_urlencoded::from_bytes", "serde_urlencoded::from_str",
    "serde_urlencoded::to_string", "ciborium::into_writer", "ciborium::from_reader",
)


# ------------------------------------------------------------------ base64
def b64_engine(C):
    t = box(C.val(0))
    n = t.decl().name() if z3.is_const(t) else None
    if n is None or not n.startswith(("const~", "static~")):
        return None
    return n.split("<")[0].split("::")[-1].replace("BASE64_", "")


def b64enc(engine, e):
    t = fn("b64enc~" + engine, STR, STR)(e)
    if not AX.has(t, "b64"):
        d = b64dec(engine, t)
        AX.add(t, z3.And(disc(d) == 0, fld_term("std::result::Result", "Ok", 0, d) == box_str(e)))
        AX.add(t, fn("is_utf8", STR, BOOL)(t))
    return t


def b64dec(engine, e):
    return uf_term("b64dec~" + engine, box_str(e))


def b64_ok(engine, e):
    """(ok, decoded string)"""
    d = b64dec(engine, e)
    return disc(d) == 0, tos(fld_term("std::result::Result", "Ok", 0, d))


@tmodel("base64::Engine", "encode")
def m_b64e(C):
    en, v = b64_engine(C), seqval(C, 1)
    if en is None or not isinstance(v, VStr):
        return NotImplemented
    return C.one(VStr(b64enc(en, v.e)))


@tmodel("base64::Engine", "decode")
def m_b64d(C):
    en, v = b64_engine(C), seqval(C, 1)
    if en is None or not isinstance(v, VStr):
        return NotImplemented
    ok, d = b64_ok(en, v.e)
    return C.result(ok, VStr(d))


@tmodel("x509_cert::der::referenced::OwnedToRef", "owned_to_ref")
def m_owned_to_ref(C):
    """A borrowed view of an owned ASN.1 value."""
    return C.one(unbox(C.ret, uf_term("owned_to_ref", box(C.val(0)))))


# ------------------------------------------------------------------ hashes
def sha256(e):
    return fn("sha256", STR, STR)(e)


@tmodel("sha2::Digest", "digest")
def m_digest(C):
    t = tyname(C.targ(0)) if hasattr(C, "targ") else ""
    v = seqval(C, 0)
    if "Sha256VarCore" not in t or not isinstance(v, VStr):
        return NotImplemented
    return C.one(VStr(sha256(v.e)))


def cbor_of(variant):
    return lambda C: C.one(VAdt(C.ret, C.ret.vindex(variant), [deref(C.val(0))]))


for src, va in [("&str", "Text"), ("&'a str", "Text"), ("std::string::String", "Text"), ("&[u8]", "Bytes"), ("&'a [u8]", "Bytes"),
                ("std::vec::Vec<u8>", "Bytes"), ("&[ciborium::Value]", "Array"), ("std::vec::Vec<ciborium::Value>", "Array"), ("bool", "Bool")]:
    EXACT[f"<ciborium::Value as std::convert::From<{src}>>::from"] = cbor_of(va)


# a hasher is the text it has been given so far
@tmodel("sha2::Digest", "new")
def m_dnew(C):
    return C.one(VStr(strval(b""))) if "Sha256VarCore" in tyname(C.targ(0)) else NotImplemented


@tmodel("sha2::Digest", "new_with_prefix")
def m_dnewp(C):
    v = seqval(C, 0)
    if "Sha256VarCore" not in tyname(C.targ(0)) or not isinstance(v, VStr):
        return NotImplemented
    return C.one(VStr(v.e))


@tmodel("sha2::Digest", "update")
def m_dupd(C):
    h, v = C.ex.read_mut(C.st, C.args[0]), seqval(C, 1)
    if not isinstance(h, VStr) or not isinstance(v, VStr):
        return NotImplemented
    C.ex.write_mut(C.st, C.args[0], VStr(z3.simplify(z3.Concat(h.e, v.e))))
    return C.one(UNIT)


@tmodel("sha2::Digest", "chain_update")
def m_dchain(C):
    h, v = C.val(0), seqval(C, 1)
    if not isinstance(h, VStr) or not isinstance(v, VStr):
        return NotImplemented
    return C.one(VStr(z3.simplify(z3.Concat(h.e, v.e))))


@tmodel("sha2::Digest", "finalize")
def m_dfin(C):
    h = C.val(0)
    if not isinstance(h, VStr):
        return NotImplemented
    return C.one(VStr(sha256(h.e)))


# ------------------------------------------------------------------ misc
@model("uuid::v4::<impl uuid::Uuid>::new_v4")
def m_uuid(C):
    return C.one(VSym(C.ret, fresh_u("uuid")))


@model("rand::distributions::DistString::sample_string")
def m_rand(C):
    return C.one(VStr(z3.String(fresh_name("rand"))))


@model("url::Url::set_query")
def m_set_query(C):
    """Keeps scheme, authority and path; a form-encoded query is kept as given (its alphabet needs no further escaping)."""
    import serde_m
    w = serde_m.inner_mut(C, 0)
    u = C.ex.read_mut(C.st, w)
    q = deref(C.args[1])
    t = uf_term("url::Url::set_query", box(u), box(q))
    if not AX.has(t, "sq"):
        for g in ["authority", "path", "scheme"]:
            AX.add(t, uf_term("url::Url::" + g, t) == uf_term("url::Url::" + g, box(u)))
        oq = uf_term("url::Url::query", t)
        oty = C.prog.ty_by_s("std::option::Option<&str>")
        if isinstance(q, VAdt) and q.ty.vname(q.v) == "Some" and isinstance(deref(q.fs[0]), VStr):
            e = deref(q.fs[0]).e
            AX.add(t, disc(oq) == oty.discr(oty.vindex("Some")))
            if is_form_text(e):
                AX.add(t, fld_term("std::option::Option", "Some", 0, oq) == box_str(e))
        elif isinstance(q, VAdt):
            AX.add(t, disc(oq) == oty.discr(oty.vindex("None")))
    C.ex.write_mut(C.st, w, VSym(strip(u.ty), t))
    return C.one(UNIT)


@model("url::Url::path_segments_mut")
def m_path_segments(C):
    """The handle stands for the URL itself."""
    import serde_m
    w = serde_m.inner_mut(C, 0)
    u = C.ex.read_mut(C.st, w)
    ok = fn("url_has_path_segments", U, BOOL)(box(u))
    return C.result(ok, w)


@model("url::PathSegmentsMut::<'_>::push", "url::path_segments::PathSegmentsMut::<'_>::push", "url::PathSegmentsMut::<'a>::push")
def m_path_push(C):
    import serde_m
    w = serde_m.inner_mut(C, 0)
    u = C.ex.read_mut(C.st, w)
    if not isinstance(u, VSym) or strip(u.ty).path != "url::Url":
        return NotImplemented
    C.ex.write_mut(C.st, w, VSym(strip(u.ty), uf_term("url_push_segment", box(u), box_str(C.val(1).e))))
    return C.one(C.args[0])


def is_form_text(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return is_form_text(e.arg(1)) and is_form_text(e.arg(2))
    return z3.is_app(e) and e.decl().name() == "toS" and e.arg(0).decl().name() == "uf~form_text"


@model("url::Url::as_str")
def m_urlstr(C):
    return C.one(VRef(VStr(url_str(box(C.val(0))))))


@model("core::str::<impl str>::parse")
def m_parse(C):
    t = C.ty(0)
    s = C.val(0).e
    nm = "parse<" + tyname(t) + ">"
    C.ex.externals[nm] = C.ex.externals.get(nm, 0) + 1
    if t.path == "url::Url":
        return C.one(unbox(C.ret, parse_url_term(C.prog, s)))
    return C.one(unbox(C.ret, uf_term(nm, box_str(s))))


@model("url::Url::parse")
def m_urlparse(C):
    return C.one(unbox(C.ret, parse_url_term(C.prog, C.val(0).e)))


@model("core::bool::<impl bool>::then_some")
def m_then_some(C):
    return [(s, C.some(C.args[1]) if b else C.none()) for s, b in C.branch(C.val(0).e)]

