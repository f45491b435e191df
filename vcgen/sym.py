"""Symbolic values, their boxing into one SMT sort, and the solver front end.

Strings and byte vectors are SMT strings (one character per byte).  Every other Rust value can be
boxed into the uninterpreted sort U; constructors and projections are uninterpreted functions with
ground axioms recorded for each term that is created, so no quantified background theory is needed.
References and owning pointers (Box, Arc, Pin, Cow) are transparent: they denote the value they
point to.
"""
import hashlib
import re
import subprocess
import tempfile
import time
import os

import z3

from mir import TRANSPARENT, Ty, strip

U = z3.DeclareSort("U")
UM = z3.ArraySort(U, U)
STR = z3.StringSort()
INT = z3.IntSort()
BOOL = z3.BoolSort()
absent = z3.Const("absent", U)
mkS = z3.Function("mkS", STR, U)
toS = z3.Function("toS", U, STR)
mkI = z3.Function("mkI", INT, U)
toI = z3.Function("toI", U, INT)
mkB = z3.Function("mkB", BOOL, U)
toB = z3.Function("toB", U, BOOL)
mkM = z3.Function("mkM", UM, U)
toM = z3.Function("toM", U, UM)
disc = z3.Function("disc", U, INT)
slen = z3.Function("slen", U, INT)
sat_ = z3.Function("sat", U, INT, U)
EMPTY_MAP = z3.K(U, absent)

_fns = {}


def fn(name, *sorts):
    k = (name, tuple(s.sexpr() for s in sorts))
    if k not in _fns:
        _fns[k] = z3.Function(name, *sorts)
    return _fns[k]


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- values
class V:
    __slots__ = ()


class VInt(V):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = z3.IntVal(e) if isinstance(e, int) else e


class VBool(V):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = z3.BoolVal(e) if isinstance(e, bool) else e


class VStr(V):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = strval(e) if isinstance(e, str) else e


class VAdt(V):
    """A constructed value; path is the ADT path or "tuple"."""
    __slots__ = ("ty", "v", "fs")

    def __init__(self, ty, v, fs):
        self.ty, self.v, self.fs = ty, v, tuple(fs)


class VTup(V):
    __slots__ = ("fs",)

    def __init__(self, fs):
        self.fs = tuple(fs)


class VSym(V):
    __slots__ = ("ty", "t")

    def __init__(self, ty, t):
        self.ty, self.t = ty, t


class VRaw(V):
    """A boxed value whose Rust type is not known (field of an external struct)."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class VSeq(V):
    __slots__ = ("ety", "xs")

    def __init__(self, ety, xs):
        self.ety, self.xs = ety, tuple(xs)


class VSSeq(V):
    __slots__ = ("ety", "t")

    def __init__(self, ety, t):
        self.ety, self.t = ety, t


class VMap(V):
    __slots__ = ("arr", "kty", "vty")

    def __init__(self, arr, kty, vty):
        self.arr, self.kty, self.vty = arr, kty, vty


class VRef(V):
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x


class VMut(V):
    __slots__ = ("cell", "path", "ty")

    def __init__(self, cell, path, ty=None):
        self.cell, self.path, self.ty = cell, tuple(path), ty


class VGuard(VMut):
    """A lock guard: releases its lock when dropped."""
    __slots__ = ("gid",)

    def __init__(self, cell, gid):
        VMut.__init__(self, cell, ())
        self.gid = gid


class VClo(V):
    __slots__ = ("ty", "fs")

    def __init__(self, ty, fs):
        self.ty, self.fs = ty, tuple(fs)


class VFn(V):
    __slots__ = ("callee",)

    def __init__(self, callee):
        self.callee = callee


class VFut(V):
    """A future whose result is decided when it is polled."""
    __slots__ = ("name", "args", "ret", "run")

    def __init__(self, name, args, ret, run=None):
        self.name, self.args, self.ret, self.run = name, args, ret, run


class VIter(V):
    """base: VSeq | VSSeq | ('range', lo, hi); pos: int or SMT Int; stages: tuple of (kind, f)."""
    __slots__ = ("base", "pos", "stages", "rev", "end")

    def __init__(self, base, pos=0, stages=(), rev=False, end=None):
        self.base, self.pos, self.stages, self.rev, self.end = base, pos, tuple(stages), rev, end


class VFmt(V):
    """core::fmt::Arguments or Argument: a string expression (None: not tracked)."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class VOpaque(V):
    """Something whose value is never inspected by contracts (error values, contexts)."""
    __slots__ = ("what",)

    def __init__(self, what=""):
        self.what = what


class VPos(V):
    """A position known when the code is executed: never merged with another."""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n


class VUninit(V):
    __slots__ = ()


UNIT = VTup(())
UNINIT = VUninit()


def strval(s):
    # s: latin-1 python string, one char per byte
    out = []
    for c in s:
        o = ord(c)
        if 32 <= o < 127 and c != "\\":
            out.append(c)
        else:
            out.append("\\u{%x}" % o)
    return z3.StringVal("".join(out))


def bstr(b):
    return strval("".join(chr(x) for x in b))


def pstr(s):
    """Python unicode text as UTF-8 bytes."""
    return bstr(s.encode())


# ---------------------------------------------------------------- types
STRING_TYS = {"std::string::String", "std::path::PathBuf"}
# josekit's keys, claims and headers are JSON maps behind an interface
JOSE_MAPS = {"josekit::jwk::Jwk", "josekit::jwt::JwtPayload", "josekit::jwe::JweHeader"}
MAP_TYS = JOSE_MAPS | {"serde_json::Map", "std::collections::BTreeMap", "std::collections::HashMap"}


def is_u8(t):
    return t is not None and t.k == "int" and t.d["bits"] == 8 and not t.d["signed"]


def shape(ty):
    """How a value of this (stripped) type is represented."""
    ty = strip(ty)
    if ty is None:
        return "raw", ty
    k = ty.k
    if k == "bool":
        return "bool", ty
    if k in ("int", "char"):
        return "int", ty
    if k == "str":
        return "str", ty
    if k in ("slice", "array"):
        return ("str" if is_u8(ty.elem) else "seq"), ty
    if k == "adt":
        p = ty.path
        if p in STRING_TYS:
            return "str", ty
        if p == "std::vec::Vec":
            return ("str" if is_u8(ty.arg(0)) else "seq"), ty
        if p in ("serde_bytes::ByteBuf", "serde_bytes::Bytes", "bytes::Bytes", "bytes::bytes::Bytes"):
            return "str", ty
        if p.endswith("generic_array::GenericArray") and is_u8(ty.arg(0)):
            return "str", ty
        if p in MAP_TYS:
            return "map", ty
        if p == "std::sync::Mutex" or p == "tokio::sync::Mutex":
            return "sym", ty
        return "sym", ty
    if k == "tuple":
        return ("unit" if not ty.d["es"] else "tuple"), ty
    if k in ("never",):
        return "sym", ty
    return "sym", ty


def seq_elem(ty):
    ty = strip(ty)
    if ty.k in ("slice", "array"):
        return ty.elem
    if ty.k == "adt" and ty.path == "std::vec::Vec":
        return ty.arg(0)
    return None


# ---------------------------------------------------------------- axioms
class Axioms:
    """Ground facts about terms, indexed by the id of the term that introduces them."""

    def __init__(self):
        self.by = {}
        self.hv = {}
        self.keep = []
        self._seen = {}
        self._sub = {}

    def add(self, t, fact):
        self.by.setdefault(t.get_id(), []).append(fact)
        self.keep.append((t, fact))

    def add_heavy(self, t, fact):
        """A fact used only when discharging obligations, not when pruning paths."""
        self.hv.setdefault(t.get_id(), []).append(fact)
        self.keep.append((t, fact))

    def has(self, t, tag):
        k = (t.get_id(), tag)
        if k in self._seen:
            return True
        self._seen[k] = t
        return False

    def subterms(self, e):
        """Ids of all subterms of e (cached; e is kept alive)."""
        i = e.get_id()
        r = self._sub.get(i)
        if r is not None:
            return r[1]
        out, todo = set(), [e]
        ctx = e.ctx_ref()
        while todo:
            x = todo.pop()
            j = x.get_id()
            if j in out:
                continue
            c = self._sub.get(j)
            if c is not None:
                out |= c[1]
                continue
            out.add(j)
            if z3.is_quantifier(x):
                todo.append(x.body())
            else:
                todo.extend(x.children())
        out = frozenset(out)
        self._sub[i] = (e, out)
        return out

    def relevant(self, forms, skip=(), heavy=False):
        out, seen, ax, todo = [], set(), set(skip), list(forms)
        by = self.by
        while todo:
            e = todo.pop()
            new = self.subterms(e) - seen
            seen |= new
            hits = [f for i in new & by.keys() for f in by[i]]
            if heavy:
                hits += [f for i in new & self.hv.keys() for f in self.hv[i]]
            if True:
                for f in hits:
                    k = f.get_id()
                    if k not in ax:
                        ax.add(k)
                        out.append(f)
                        todo.append(f)
        return out


AX = Axioms()


def box_str(e):
    e = z3.simplify(e) if not z3.is_const(e) else e
    if z3.is_app(e) and e.decl().name() == "toS":
        return e.arg(0)
    t = mkS(e)
    if not AX.has(t, "mkS"):
        AX.add(t, toS(t) == e)
        AX.add(t, t != absent)
    return t


def tos(t):
    if z3.is_app(t) and t.decl().name() == "mkS":
        return t.arg(0)
    e = toS(t)
    if not AX.has(e, "toS"):
        AX.add(e, z3.Or(t == absent, mkS(e) == t))
    return e


def box_int(e):
    if z3.is_app(e) and e.decl().name() == "toI":
        return e.arg(0)
    t = mkI(e)
    if not AX.has(t, "mkI"):
        AX.add(t, toI(t) == e)
        AX.add(t, t != absent)
    return t


def box_bool(e):
    if z3.is_app(e) and e.decl().name() == "toB":
        return e.arg(0)
    t = mkB(e)
    if not AX.has(t, "mkB"):
        AX.add(t, toB(t) == e)
        AX.add(t, t != absent)
    return t


def box_map(e):
    if z3.is_app(e) and e.decl().name() == "toM":
        return e.arg(0)
    t = mkM(e)
    if not AX.has(t, "mkM"):
        AX.add(t, toM(t) == e)
        AX.add(t, t != absent)
    return t


def tom(t):
    if z3.is_app(t) and t.decl().name() == "mkM":
        return t.arg(0)
    e = toM(t)
    if not AX.has(e, "toM"):
        AX.add(e, mkM(e) == t)
    return e


def toi(t, ty=None):
    if z3.is_app(t) and t.decl().name() == "mkI":
        return t.arg(0)
    e = toI(t)
    if not AX.has(e, "toI"):
        AX.add(e, mkI(e) == t)
        if ty is not None and ty.k == "int":
            b = ty.d["bits"]
            if ty.d["signed"]:
                AX.add(e, z3.And(e >= -(2 ** (b - 1)), e < 2 ** (b - 1)))
            else:
                AX.add(e, z3.And(e >= 0, e < 2 ** b))
    return e


def tob(t):
    if z3.is_app(t) and t.decl().name() == "mkB":
        return t.arg(0)
    e = toB(t)
    if not AX.has(e, "toB"):
        AX.add(e, mkB(e) == t)
    return e


def adt_name(ty):
    if ty.k == "tuple":
        return f"tuple{len(ty.d['es'])}"
    return ty.path


CTORS = {}
_QAX = {}


def quant_axioms(forms):
    """Constructor and boxing laws, quantified, for the symbols that occur under quantifiers (where ground facts do not reach)."""
    names, seen, todo = set(), set(), [(f, False) for f in forms]
    while todo:
        e, inq = todo.pop()
        k = (e.get_id(), inq)
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(e):
            todo.append((e.body(), True))
        elif z3.is_app(e):
            if inq and e.num_args():
                names.add(e.decl().name())
            todo.extend((c, inq) for c in e.children())
    out = []
    for n in sorted(names):
        if n not in _QAX:
            _QAX[n] = _qax(n)
        out += _QAX[n]
    return out


def _qax(n):
    if n in CTORS:
        f, d, flds = CTORS[n]
        xs = [z3.Const(f"x~q{i}", U) for i in range(len(flds))]
        t = f(*xs)
        body = [z3.Or(x == absent, g(t) == x) for g, x in zip(flds, xs)] + [t != absent]
        if d is not None:
            body.append(disc(t) == d)
        return [z3.ForAll(xs, z3.And(body), patterns=[t])]
    x = z3.Const("x~q", U)
    if n in ("mkS", "mkI", "mkB", "mkM"):
        mk, to, so = {"mkS": (mkS, toS, STR), "mkI": (mkI, toI, INT), "mkB": (mkB, toB, BOOL), "mkM": (mkM, toM, UM)}[n]
        y = z3.Const("y~q", so)
        return [z3.ForAll([y], z3.And(to(mk(y)) == y, mk(y) != absent), patterns=[mk(y)])]
    if n.startswith("fld~"):
        g = fn(n, U, U)
        return [z3.ForAll([x], g(x) != absent, patterns=[g(x)])]
    if n == "toS":
        return [z3.ForAll([x], z3.Or(x == absent, mkS(toS(x)) == x), patterns=[toS(x)])]
    if n == "toM":
        return [z3.ForAll([x], z3.Or(x == absent, mkM(toM(x)) == x), patterns=[toM(x)])]
    if n == "sat":
        i = z3.Int("i~q")
        return [z3.ForAll([x, i], z3.Implies(z3.And(i >= 0, i < slen(x)), sat_(x, i) != absent), patterns=[sat_(x, i)])]
    if n == "contains":
        b, w, i = fn("contains", U, U, BOOL), fn("contains_at", U, U, INT), z3.Int("i~q")
        y = z3.Const("y~q", U)
        return [z3.ForAll([x, y], z3.Implies(b(x, y), z3.And(w(x, y) >= 0, w(x, y) < slen(x), sat_(x, w(x, y)) == y)), patterns=[b(x, y)]),
                z3.ForAll([x, y, i], z3.Implies(z3.And(i >= 0, i < slen(x), sat_(x, i) == y), b(x, y)),
                          patterns=[z3.MultiPattern(b(x, y), sat_(x, i))])]
    if n == "slen":
        return [z3.ForAll([x], slen(x) >= 0, patterns=[slen(x)])]
    return []


def eta(v):
    """A struct-typed symbolic value equals the value rebuilt from its fields (fact)."""
    if isinstance(v, VRef):
        return eta(v.x)
    if isinstance(v, VSym) and v.ty is not None:
        ty = v.ty
        while ty.k == "ref":
            ty = ty.elem
        if ty.k == "adt" and not ty.is_enum and ty.path.startswith("crate::") and ty.nvariants == 1 and 0 < ty.nfields(0) <= 4:
            fs = [fld_term(adt_name(ty), ty.vname(0), i, v.t) for i in range(ty.nfields(0))]
            t = ctor_term(adt_name(ty), 0, ty.vname(0), None, fs)
            if not AX.has(v.t, "eta"):
                AX.add(v.t, t == v.t)
    return v


def ctor_term(name, v, vname, dval, fs):
    """mk~<adt>~<variant>(fields) with its ground axioms."""
    f = fn(f"mk~{name}~{vname}", *([U] * len(fs)), U) if fs else None
    t = f(*fs) if fs else z3.Const(f"mk~{name}~{vname}", U)
    if fs:
        CTORS[f"mk~{name}~{vname}"] = (f, dval, [fn(f"fld~{name}~{vname}~{i}", U, U) for i in range(len(fs))])
    if not AX.has(t, "mk"):
        if dval is not None:
            AX.add(t, disc(t) == dval)
        AX.add(t, t != absent)
        for i, x in enumerate(fs):
            e = fn(f"fld~{name}~{vname}~{i}", U, U)(t) == x
            AX.add(t, e if never_absent(x) else z3.Or(x == absent, e))
        # extensionality: rebuilding a value from its own fields gives it back
        for x in fs[:1]:
            if z3.is_app(x) and x.decl().name() == f"fld~{name}~{vname}~0":
                b = x.arg(0)
                if all(z3.is_app(y) and y.decl().name() == f"fld~{name}~{vname}~{i}" and y.arg(0).eq(b)
                       for i, y in enumerate(fs)):
                    AX.add(t, z3.Implies(disc(b) == dval, t == b) if dval is not None else t == b)
    return t


def fld_term(name, vname, i, t):
    if z3.is_app(t) and t.decl().name() == f"mk~{name}~{vname}" and t.num_args() > i:
        return t.arg(i)
    e = fn(f"fld~{name}~{vname}~{i}", U, U)(t)
    if not AX.has(e, "present"):
        AX.add(e, e != absent)
    return e


def never_absent(x):
    """'absent' marks a missing map entry; it is never a field of a value, nor an argument."""
    n = x.decl().name()
    return z3.is_app(x) and (n.startswith(("mk", "fld~", "arg", "sat")) and not n.startswith("mkB~"))


def disc_term(ty, t):
    """SMT Int: the discriminant value of an enum term, with its range."""
    e = disc(t)
    if ty is not None and ty.is_enum and not AX.has(e, "range"):
        n = ty.nvariants
        if n:
            AX.add(e, z3.Or([e == ty.discr(i) for i in range(n)]))
            for i in range(n):
                if ty.nfields(i) == 0 and n > 0:
                    c = ctor_term(adt_name(ty), i, ty.vname(i), ty.discr(i), [])
                    AX.add(e, z3.Implies(e == ty.discr(i), t == c))
    return e


def slen_term(t):
    e = slen(t)
    if not AX.has(e, "len"):
        AX.add(e, e >= 0)
    return e


def seq_term(fs):
    n = len(fs)
    f = fn(f"mkSeq{n}", *([U] * n), U) if n else None
    t = f(*fs) if n else z3.Const("mkSeq0", U)
    if not AX.has(t, "mk"):
        AX.add(t, slen(t) == n)
        AX.add(t, t != absent)
        for i, x in enumerate(fs):
            e = sat_(t, i) == x
            AX.add(t, e if never_absent(x) else z3.Or(x == absent, e))
    return t


BOXERS = []


def box(x):
    """V -> U term."""
    if isinstance(x, VSym):
        return x.t
    if isinstance(x, VRaw):
        return x.t
    if isinstance(x, VStr):
        return box_str(x.e)
    if isinstance(x, VBool):
        return box_bool(x.e)
    if isinstance(x, VInt):
        return box_int(x.e)
    if isinstance(x, VRef):
        return box(x.x)
    if isinstance(x, VAdt):
        ty = x.ty
        fs = [box(f) for f in x.fs]
        d = ty.discr(x.v) if ty.is_enum else None
        if not ty.is_enum and fs and ty.k == "adt":
            # single-variant: rebuild of the same term
            x0 = fs[0]
            nm = adt_name(ty)
            if z3.is_app(x0) and x0.decl().name() == f"fld~{nm}~{ty.vname(x.v)}~0":
                b = x0.arg(0)
                if all(z3.is_app(y) and y.decl().name() == f"fld~{nm}~{ty.vname(x.v)}~{i}" and y.arg(0).eq(b)
                       for i, y in enumerate(fs)):
                    return b
        return ctor_term(adt_name(ty), x.v, ty.vname(x.v), d, fs)
    if isinstance(x, VTup):
        return ctor_term(f"tuple{len(x.fs)}", 0, "0", None, [box(f) for f in x.fs])
    if isinstance(x, VSeq):
        return seq_term([box(f) for f in x.xs])
    if isinstance(x, VSSeq):
        return x.t
    if isinstance(x, VMap):
        return box_map(x.arr)
    if isinstance(x, VFmt):
        return box_str(x.e if x.e is not None else z3.StringVal("?fmt"))
    if isinstance(x, VOpaque):
        return z3.Const("opaque~" + x.what, U)
    if isinstance(x, VClo):
        return ctor_term("clo~" + x.ty.s, 0, "0", None, [box(f) for f in x.fs])
    if isinstance(x, VFn):
        c = x.callee
        return z3.Const("fn~" + str(c.get("rpath") or c.get("path")), U)
    if isinstance(x, VIter):
        b = x.base
        bt = box(b) if isinstance(b, V) else ctor_term("range", 0, "0", None, [box_int(z3.simplify(b[1])), box_int(z3.simplify(b[2]))])
        return ctor_term("iter~%s~%s~%s" % (x.pos, x.rev, ",".join(s[0] for s in x.stages)), 0, "0", None,
                         [bt] + [box(s[1]) for s in x.stages if isinstance(s[1], V)])
    if isinstance(x, VFut):
        return z3.Const("fut~" + x.name, U)
    for f in BOXERS:
        t = f(x)
        if t is not None:
            return t
    raise Unsupported(f"box {type(x).__name__}")


def unbox(ty, t):
    """U term of the given Rust type -> V (references become VRef, owning pointers vanish)."""
    if ty is None:
        return VRaw(t)
    if ty.k in ("ref", "ptr"):
        return VRef(unbox(ty.elem, t))
    if ty.k == "adt" and (ty.path in TRANSPARENT):
        return unbox(ty.arg(0), t)
    if ty.k == "adt" and ty.path == "std::borrow::Cow":
        return unbox(ty.arg(0), t)
    k, st = shape(ty)
    if k == "bool":
        return VBool(tob(t))
    if k == "int":
        return VInt(toi(t, st))
    if k == "str":
        return VStr(tos(t))
    if k == "seq":
        return VSSeq(seq_elem(st), t)
    if k == "map":
        a = [st.prog.types[x] for x in st.d["args"] if isinstance(x, int)]
        if st.path == "serde_json::Map" or st.path in JOSE_MAPS:
            return VMap(tom(t), a[0] if a else None, a[1] if len(a) > 1 else None)
        return VMap(tom(t), a[0], a[1])
    if k == "unit":
        return UNIT
    if k == "raw":
        return VRaw(t)
    return VSym(st, t)


_fresh = [0]


def fresh_name(p):
    _fresh[0] += 1
    return f"{p}!{_fresh[0]}"


def fresh_u(p):
    return z3.Const(fresh_name(p), U)


def deref(x):
    while isinstance(x, VRef):
        x = x.x
    return x


def eq(a, b):
    """SMT Bool: structural equality of two values."""
    a, b = deref(a), deref(b)
    if isinstance(a, VStr) and isinstance(b, VStr):
        return a.e == b.e
    if isinstance(a, VInt) and isinstance(b, VInt):
        return a.e == b.e
    if isinstance(a, VBool) and isinstance(b, VBool):
        return a.e == b.e
    if isinstance(a, VTup) and isinstance(b, VTup):
        if len(a.fs) != len(b.fs):
            return z3.BoolVal(False)
        return z3.And([eq(x, y) for x, y in zip(a.fs, b.fs)]) if a.fs else z3.BoolVal(True)
    if isinstance(a, VAdt) and isinstance(b, VAdt) and a.ty.path == b.ty.path:
        if a.v != b.v:
            return z3.BoolVal(False)
        return z3.And([eq(x, y) for x, y in zip(a.fs, b.fs)]) if a.fs else z3.BoolVal(True)
    if isinstance(a, VMap) and isinstance(b, VMap):
        return a.arr == b.arr
    if isinstance(a, VSeq) and isinstance(b, VSeq):
        if len(a.xs) != len(b.xs):
            return z3.BoolVal(False)
        return z3.And([eq(x, y) for x, y in zip(a.xs, b.xs)]) if a.xs else z3.BoolVal(True)
    if isinstance(a, (VSeq, VSSeq)) and isinstance(b, (VSeq, VSSeq)):
        if isinstance(a, VSeq):
            a, b = b, a
        if isinstance(b, VSeq):
            return z3.And([slen_term(a.t) == len(b.xs)] + [sat_(a.t, i) == box(x) for i, x in enumerate(b.xs)])
        return a.t == b.t
    if isinstance(a, VSym) and isinstance(b, VAdt):
        a, b = b, a
    if isinstance(a, VAdt) and isinstance(b, VSym):
        nm, vn = adt_name(a.ty), a.ty.vname(a.v)
        cs = []
        if a.ty.is_enum:
            cs.append(disc_term(a.ty, b.t) == a.ty.discr(a.v))
        for i, f in enumerate(a.fs):
            cs.append(eq(f, unbox_like(f, a.ty.field_ty(a.v, i), fld_term(nm, vn, i, b.t))))
        return z3.And(cs) if cs else z3.BoolVal(True)
    if isinstance(a, VSym) and isinstance(b, VSym) and a.ty is not None and a.ty is b.ty:
        ty = a.ty
        if ty.k == "adt" and not ty.is_enum and ty.path.startswith("crate::") and ty.nvariants == 1 and 0 < ty.nfields(0) <= 4:
            # extensionality: equal exactly if the fields are
            eta(a), eta(b)
            n, v = adt_name(ty), ty.vname(0)
            fs = [ty.field_ty(0, i) for i in range(ty.nfields(0))]
            return z3.And([eq(unbox(f, fld_term(n, v, i, a.t)), unbox(f, fld_term(n, v, i, b.t))) for i, f in enumerate(fs)])
    return box(a) == box(b)


def unbox_like(f, ty, t):
    if ty is not None:
        return unbox(ty, t)
    f = deref(f)
    if isinstance(f, VStr):
        return VStr(tos(t))
    if isinstance(f, VInt):
        return VInt(toi(t))
    if isinstance(f, VBool):
        return VBool(tob(t))
    return VRaw(t)


# ---------------------------------------------------------------- solver
class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.cvc5 = 0


STATS = Stats()
_cache = {}


def solve(forms, timeout=4000, model=False, rlimit=0):
    """'sat' | 'unsat' | 'unknown' for the conjunction of forms with the relevant axioms."""
    forms = [f for f in forms if not z3.is_true(f)]
    key = (frozenset(f.get_id() for f in forms), timeout)
    if not model and key in _cache:
        return _cache[key][0]
    s = z3.Solver()
    s.set("timeout", timeout)
    if rlimit:
        s.set("rlimit", rlimit)
    s.add(*forms, *AX.relevant(forms))
    t0 = time.time()
    r = str(s.check())
    STATS.time += time.time() - t0
    STATS.queries += 1
    if r == "unknown":
        STATS.unknown += 1
    _cache[key] = (r, forms)
    if model:
        return r, (s.model() if r == "sat" else None), s
    return r


class Incremental:
    """Feasibility of path conditions: one z3 solver whose assertion stack follows the path."""

    def __init__(self):
        self.s = z3.Solver()
        self.stack = []      # (formula id, formula, subterm ids, axiom ids)

    def check(self, forms, timeout):
        forms = [f for f in forms if not z3.is_true(f)]
        n = 0
        while n < len(self.stack) and n < len(forms) and self.stack[n][0] == forms[n].get_id():
            n += 1
        if n < len(self.stack):
            self.s.pop(len(self.stack) - n)
            del self.stack[n:]
        seen = set()
        axs = set()
        for x in self.stack:
            seen |= x[2]
            axs |= x[3]
        by = AX.by
        # facts about terms already on the stack that were recorded since
        late = seen & by.keys()
        for f in forms[n:]:
            self.s.push()
            self.s.add(f)
            todo, mine, ids = [f], set(), set()
            if late:
                for i in late:
                    for a in by[i]:
                        if a.get_id() not in axs:
                            axs.add(a.get_id())
                            ids.add(a.get_id())
                            self.s.add(a)
                            todo.append(a)
                late = ()
            while todo:
                e = todo.pop()
                new = AX.subterms(e) - seen
                seen |= new
                mine |= new
                for i in new & by.keys():
                    for a in by[i]:
                        k = a.get_id()
                        if k not in axs:
                            axs.add(k)
                            ids.add(k)
                            self.s.add(a)
                            todo.append(a)
            self.stack.append((f.get_id(), f, mine, ids))
        self.s.set("timeout", timeout)
        t0 = time.time()
        r = str(self.s.check())
        STATS.time += time.time() - t0
        STATS.queries += 1
        if r == "unknown":
            STATS.unknown += 1
        return r


INC = Incremental()


def feasible(forms, timeout=1500):
    key = (frozenset(f.get_id() for f in forms), "f")
    if key in _cache:
        return _cache[key][0]
    # an effort limit that does not depend on the machine's load; what stays open is explored as feasible
    r = solve(forms, timeout, rlimit=120000)
    _cache[key] = (r, list(forms))
    return r


def ok_pattern(t):
    """Terms usable as a trigger: applications of uninterpreted functions only."""
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_var(x) or not z3.is_app(x):
            continue
        if z3.is_bool(x) or x.decl().kind() == z3.Z3_OP_ITE:
            return False
        todo.extend(x.children())
    return True


def forall(vs, body, pat):
    if ok_pattern(pat):
        return z3.ForAll(vs, body, patterns=[pat])
    return z3.ForAll(vs, body)


def solve_cvc5(s, timeout=10):
    """Second opinion on a z3 solver's assertions."""
    STATS.cvc5 += 1
    smt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(smt)
    try:
        r = subprocess.run(["cvc5", f"--tlimit={timeout * 1000}", "--strings-exp", f.name],
                           capture_output=True, text=True, timeout=timeout + 5)
        out = r.stdout.strip().split("\n")[0]
        return out if out in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(f.name)


def digest(e):
    return hashlib.md5(e.sexpr().encode()).hexdigest()[:12]
