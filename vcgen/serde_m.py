"""Serde: (de)serialisers are JSON values.

A `Deserializer` is the JSON value it will deliver, a `Serializer` collects the JSON value it is given.
The derived and hand-written Serialize/Deserialize bodies of /repo's types are executed as MIR; what
is modelled here is serde's data model (how serde_json, serde_urlencoded and ciborium drive them).
Types that occur inside another type and have their own round-trip contract stay opaque there:
ser<T>(x) is a JSON value from which de<T> gives x back.
"""
import re

import z3

import exe
import models
import sym
from mir import strip
from models import (Call, EXACT, J, TRAIT, Unsupported, forall, j_is, j_payload, jty, known_ext, model, parse_url_term, tmodel,
                    tyname, uf_term, url_str, val)
from sym import *

BYTES_KEY = "\0bytes"
#: local types executed also when they occur inside another type
INLINE = {"UntypedObject", "RequestIndirection", "JwtAuthorizationResponse", "UnencodedAuthorizationResponse",
          "JsonEncodedAuthorizationResponse", "JWKs", "ResponseMode", "ResponseType", "RequestUriMethod", "ClientIdScheme", "State", "Nonce"}
_index = {}


def index(prog):
    ix = _index.get(id(prog))
    if ix is not None:
        return ix
    ix = {"ser": {}, "de": {}, "vis": {}, "prog": prog}
    for key, b in prog.bodies.items():
        p = b["path"]
        if key != p:
            continue
        # number of a type among those of one name in a function body
        m = re.match(r"^(.*)(#\d+)$", p)
        p, num = (m.group(1), m.group(2)) if m else (p, "")
        if p.startswith("<"):
            m = re.match(r"^<(.+) as serde::(?:Serialize|Deserialize<'de>)>::(serialize|deserialize)$", p)
        else:
            m = re.match(r"^.*::_::<impl serde::(?:Serialize|Deserialize<'de>) for (.+)>::(serialize|deserialize)$", p)
        if m:
            ix["ser" if m.group(2) == "serialize" else "de"][bare(m.group(1)) + num] = key
        i = p.rfind(" as serde::de::Visitor<'de>>::")
        if i > 0 and p.startswith("<"):
            ix["vis"][(bare(p[1:i]) + num, p[i + len(" as serde::de::Visitor<'de>>::"):])] = key
    _index[id(prog)] = ix
    return ix


def bare(t):
    """Type name without its own generic arguments."""
    if not t.endswith(">"):
        return t
    d = 0
    for i in range(len(t) - 1, -1, -1):
        if t[i] == ">" and t[i - 1] != "-":
            d += 1
        elif t[i] == "<":
            d -= 1
            if d == 0:
                return t[:i]
    return t


def is_local(t):
    return t is not None and t.k == "adt" and (t.path.startswith("crate::") or t.path.startswith("openid4vp_frontend::"))


def jsym(prog, t):
    return VSym(prog.ty_by_s("serde_json::Value"), t)


def null(prog):
    return J(prog, "Null")


def kind(prog, j, k):
    return z3.simplify(j_is(prog, j, k))


def models_range(t):
    b = t.d.get("bits") or 64
    return (-(2 ** (b - 1)), 2 ** (b - 1) - 1) if t.d["signed"] else (0, 2 ** b - 1)


def num(bx, ty=None):
    """JSON number of an integer; reading it back as an integer type it fits gives the integer (the writer's own type always fits)."""
    t = uf_term("num", bx)
    if not AX.has(t, "num"):
        AX.add(t, uf_term("num_val", t) == bx)
        AX.add(t, t != absent)
        v = toi(bx)
        if ty is not None and ty.k == "int":
            lo, hi = models_range(ty)
            AX.add(t, z3.And(v >= lo, v <= hi))
        AX.add(t, fn("num_is_int", U, BOOL)(t))
    return t


def number(prog, t):
    return J(prog, "Number", VSym(prog.ty_by_s("serde_json::Number"), t))


# ---------------------------------------------------------------- serialising
def result_pairs(ex, rs):
    """Results of a body returning Result<T, E> -> list of (state, payload or None), panics kept."""
    out = []
    for r in rs:
        if r[0] == "panic":
            out.append(r)
            continue
        s, v = r[-2], r[-1]
        for s2, kind_, payload in split_result(ex, s, v):
            out.append((s2, payload if kind_ == "Ok" else None))
    return out


def split_result(ex, st, v):
    v = deref(v)
    if isinstance(v, VAdt):
        return [(st, v.ty.vname(v.v), v.fs[0])]
    ty = strip(v.ty)
    out = []
    d = disc_term(ty, v.t)
    for s, nm in ex.branch(st, [(d == ty.discr(ty.vindex("Ok")), "Ok"), (d == ty.discr(ty.vindex("Err")), "Err")]):
        i = ty.vindex(nm)
        out.append((s, nm, unbox(ty.field_ty(i, 0), fld_term(adt_name(ty), nm, 0, v.t))))
    return out


def ser_value(ex, st, ty, v, top=False):
    """-> list of (state, JSON value | None)."""
    prog = ex.prog
    t = strip(ty)
    x = val(ex, st, v)
    p = t.path if t.k == "adt" else None
    if p in ("serde_bytes::Bytes", "serde_bytes::ByteBuf"):
        return [(st, J(prog, "Object", VMap(z3.Store(EMPTY_MAP, box_str(pstr(BYTES_KEY)), box(J(prog, "String", x))), None, None)))]
    k, _ = shape(t)
    if k == "str" and not (t.k in ("slice", "array") or p == "std::vec::Vec"):
        return [(st, J(prog, "String", x))]
    if k == "bool":
        return [(st, J(prog, "Bool", x))]
    if k == "int":
        return [(st, number(prog, num(box(x), t)))]
    if k == "unit":
        return [(st, null(prog))]
    if p == "serde_json::Value":
        return [(st, x if not isinstance(x, VRaw) else jsym(prog, x.t))]
    if p == "serde_json::Map" or p in JOSE_MAPS:
        return [(st, J(prog, "Object", x))]
    if p == "url::Url":
        return [(st, J(prog, "String", VStr(url_str(box(x)))))]
    if p == "ciborium::Value":
        return ser_cbor(ex, st, t, x)
    if t.k == "tuple":
        outs = [(st, [])]
        for i, et in enumerate(t.elems):
            nxt = []
            for s, acc in outs:
                e = ex.get1(x, ("f", None, i, et))
                nxt += [(s2, acc + [j] if acc is not None and j is not None else None) for s2, j in ser_value(ex, s, et, e)]
            outs = nxt
        return [(s, J(prog, "Array", VSeq(prog.ty_by_s("serde_json::Value"), acc)) if acc is not None else None) for s, acc in outs]
    if p == "std::option::Option":
        it = t.arg(0)
        if isinstance(x, VAdt):
            return [(st, null(prog))] if t.vname(x.v) == "None" else ser_value(ex, st, it, x.fs[0])
        out = []
        d = disc_term(strip(x.ty), x.t)
        for s, b in ex.branch(st, [(d == 1, True), (d == 0, False)]):
            if b:
                out += ser_value(ex, s, it, unbox(it, fld_term("std::option::Option", "Some", 0, x.t)))
            else:
                out.append((s, null(prog)))
        return out
    if k == "seq" and isinstance(x, (VSeq, VSSeq)):
        et = strip(seq_elem(t))
        if simple(et):
            if isinstance(x, VSeq):
                return [(st, J(prog, "Array", VSeq(prog.ty_by_s("serde_json::Value"), [ser_value(ex, st, et, y)[0][1] for y in x.xs])))]
            if et.path == "serde_json::Value":
                return [(st, J(prog, "Array", VSSeq(prog.ty_by_s("serde_json::Value"), x.t)))]
            i = z3.Int(fresh_name("idx"))
            it = VIter(x, 0)
            body = box(ser_value(ex, st, et, ex.iter_at(it, i))[0][1])
            return [(st, J(prog, "Array", ex.comprehension(it, i, body, prog.ty_by_s("serde_json::Value"))))]
        if seq_inline(et) and isinstance(x, VSSeq):
            ok, body, it, i = generic_elem(ex, st, x, lambda g, e: ser_value(ex, g, et, e, top=True))
            if z3.is_true(ok):
                return [(st, J(prog, "Array", ex.comprehension(it, i, body, prog.ty_by_s("serde_json::Value"))))]
    if is_local(t) and (top or t.path.split("::")[-1] in INLINE):
        key = index(prog)["ser"].get(t.path)
        if key is not None:
            rs = ex.run_body(key, [VRef(x), VOpaque("serializer")], st)
            return result_pairs(ex, rs)
    return [(st, ser_opaque(ex, st, t, x))]


#: local element types whose (de)serialisation is unfolded inside sequences
SEQ_INLINE = {"ResponseType"}


def bytes_token(prog, x):
    return J(prog, "Object", VMap(z3.Store(EMPTY_MAP, box_str(pstr(BYTES_KEY)), box(J(prog, "String", x))), None, None))


def ser_cbor(ex, st, t, x):
    """ciborium's dynamic value encodes as the item it stands for."""
    prog = ex.prog
    if isinstance(x, VAdt):
        nm = t.vname(x.v)
        if nm == "Null":
            return [(st, null(prog))]
        if nm == "Text":
            return [(st, J(prog, "String", val(ex, st, x.fs[0])))]
        if nm == "Bool":
            return [(st, J(prog, "Bool", val(ex, st, x.fs[0])))]
        if nm == "Bytes":
            return [(st, bytes_token(prog, val(ex, st, x.fs[0])))]
        if nm == "Array" and isinstance(val(ex, st, x.fs[0]), VSeq):
            outs = [(st, [])]
            for y in val(ex, st, x.fs[0]).xs:
                outs = [(s2, acc + [j]) for s, acc in outs for s2, j in ser_value(ex, s, t, y)]
            return [(s, J(prog, "Array", VSeq(prog.ty_by_s("serde_json::Value"), acc))) for s, acc in outs]
        raise Unsupported("CBOR value " + nm)
    if isinstance(x, (VSym, VRaw)):
        if x.t.decl().name() == "uf~cbor_value":
            return [(st, jsym(prog, x.t.arg(0)))]
        out, rest = [], st
        d = disc_term(t, x.t)
        for nm in ("Null", "Bytes", "Text"):
            i = t.vindex(nm)
            for s, b in ex.branch(rest, [(d == t.discr(i), True), (d != t.discr(i), False)]):
                if not b:
                    rest = s
                elif nm == "Null":
                    out.append((s, null(prog)))
                else:
                    y = VStr(tos(fld_term(adt_name(t), nm, 0, x.t)))
                    out.append((s, bytes_token(prog, y) if nm == "Bytes" else J(prog, "String", y)))
            if not any(b is False for _, b in ex.branch(rest, [(d == t.discr(i), True), (d != t.discr(i), False)])):
                return out
        st_ = rest
        out.append((st_, ser_opaque(ex, st_, t, x)))
        return out
    raise Unsupported("CBOR value " + type(x).__name__)


def seq_inline(et):
    return is_local(et) and et.path.split("::")[-1] in SEQ_INLINE


def generic_elem(ex, st, a, f):
    """Runs f on the generic element of a symbolic sequence -> (all succeed for index i, value term, iterator, i)."""
    i = z3.Int(fresh_name("idx"))
    it = VIter(a, 0)
    mark = sym._fresh[0]
    g = st.fork()
    g.assume(i >= 0)
    g.assume(i < ex.iter_len(it))
    npc, ntr = len(g.pc), len(g.trace)
    naming, exe.NAMING[0] = exe.NAMING[0], False
    try:
        rs = f(g, ex.iter_at(it, i))
    finally:
        exe.NAMING[0] = naming
    good, body = [], None
    for r in rs:
        if r[0] == "panic" or len(r[0].trace) != ntr:
            raise Unsupported("element conversion with effects")
        s, v = r
        st.unmod |= s.unmod
        if v is None:
            continue
        c = z3.And(s.pc[npc:]) if s.pc[npc:] else z3.BoolVal(True)
        good.append(c)
        body = box(v) if body is None else z3.If(c, box(v), body)
    allok = len(good) == len(rs)
    ok = z3.BoolVal(True) if allok else z3.simplify(z3.Or(good)) if good else z3.BoolVal(False)
    ex.check_ground([ok] + ([body] if body is not None else []), i, mark)
    return ok, body, it, i


def simple(et):
    p = et.path if et.k == "adt" else None
    k = shape(et)[0]
    return p in ("serde_json::Value", "serde_json::Map") or (k == "str" and not (et.k in ("slice", "array") or p in ("std::vec::Vec", "serde_bytes::Bytes", "serde_bytes::ByteBuf")))


def opaque_note(ex, st, nm, t):
    ex.externals[nm] = ex.externals.get(nm, 0) + 1
    if not known_opaque(ex.prog, t):
        st.note(nm)


#: types with a round-trip contract, filled by contracts
ROUNDTRIP = set()


def known_opaque(prog, t):
    t = strip(t)
    if t.k == "param":
        return True
    if t.k in ("slice", "array"):
        return known_opaque(prog, t.elem)
    if t.k != "adt":
        return simple(t) or t.k in ("bool", "int", "str")
    if is_local(t):
        if t.path not in ROUNDTRIP:
            return False
    elif t.path not in ("std::vec::Vec", "std::option::Option", "std::collections::HashMap", "std::collections::BTreeMap",
                        "std::string::String", "serde_json::Value", "serde_json::Map", "url::Url", "std::hash::RandomState",
                        "std::collections::hash_map::RandomState"):
        return False
    return all(known_opaque(prog, prog.types[a]) for a in t.d["args"] if isinstance(a, int) and "alloc::Global" not in prog.types[a].s
               and "RandomState" not in prog.types[a].s)


def ser_opaque(ex, st, t, x):
    nm = "ser<" + tyname(t) + ">"
    opaque_note(ex, st, nm, t)
    bx = box(x)
    j = uf_term(nm, bx)
    jt = ex.prog.ty_by_s("serde_json::Value")
    if not AX.has(j, "ser"):
        AX.add(j, j != absent)
        disc_term(jt, j)
        if not (t.k == "param"):
            AX.add(j, disc(j) != jt.discr(jt.vindex("Null")))
        if t.path in ("std::collections::HashMap", "std::collections::BTreeMap"):
            AX.add(j, disc(j) == jt.discr(jt.vindex("Object")))
        if t.k in ("slice", "array") or t.path == "std::vec::Vec":
            AX.add(j, disc(j) == jt.discr(jt.vindex("Array")))
        r = uf_term("de<" + tyname(t) + ">", j)
        AX.add(j, r == ctor_term("std::result::Result", 0, "Ok", 0, [bx]))
    return jsym(ex.prog, j)


def as_result(C, pairs):
    out = []
    for r in pairs:
        if r[0] == "panic":
            out.append(r)
        else:
            out.append((r[0], C.ok(r[1]) if r[1] is not None else C.err()))
    return out


def finish_ser(C, token, pairs):
    """A value given to a Serializer: the JSON itself, or merged into a flattened map."""
    tgt = flat_target(C.ex, C.st, token)
    if tgt is None:
        return as_result(C, pairs)
    out = []
    for r in pairs:
        if r[0] == "panic":
            out.append(r)
            continue
        s, j = r
        if j is None:
            out.append((s, C.err()))
            continue
        for s2, b in C.ex.branch(s, [(kind(C.prog, j, "Object"), True), (z3.Not(kind(C.prog, j, "Object")), False)]):
            if not b:
                out.append((s2, C.err()))
                continue
            cur = C.ex.read_mut(s2, tgt)
            C.ex.write_mut(s2, tgt, VMap(map_union(cur.arr, deref(j_payload(C.prog, j, "Object")).arr), cur.kty, cur.vty))
            out.append((s2, C.ok(UNIT)))
    return out


def map_union(a, b):
    """Entries of b, then those of a (the two are taken to be disjoint where it matters)."""
    if a.eq(EMPTY_MAP):
        return b
    if b.eq(EMPTY_MAP):
        return a
    if a.get_id() in exe.UNNAMED:
        a = exe.UNNAMED[a.get_id()]
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        return z3.If(a.arg(0), map_union(a.arg(1), b), map_union(a.arg(2), b))
    r = b
    ents = []
    x = a
    while z3.is_store(x):
        ents.append((x.arg(1), x.arg(2)))
        x = x.arg(0)
    if x.eq(EMPTY_MAP):
        for k, v in reversed(ents):
            r = z3.Store(r, k, v)
        return r
    raise Unsupported("union of maps")


def flat_target(ex, st, token):
    t = token
    while isinstance(t, VRef):
        t = t.x
    if isinstance(t, VAdt) and t.ty.path.endswith("FlatMapSerializer"):
        m = t.fs[0]
        while isinstance(m, VMut) and isinstance(ex.read_mut(st, m), VMut):
            m = ex.read_mut(st, m)
        return m
    return None


def serializer(*ms):
    def d(f):
        for m in ms:
            TRAIT[("serde::Serializer", m)] = f
        return f
    return d


@serializer("serialize_str", "collect_str")
def m_ser_str(C):
    if C.c.get("method") == "collect_str":
        out = []
        c2 = dict(C.c)
        c2["disp_ty"] = next((a for a in reversed(C.c.get("args", [])) if isinstance(a, int)), None)
        for k, s, e in models.display(C.ex, C.st, c2, C.args[1]):
            out.append((s, C.ok(J(C.prog, "String", VStr(e)))))
        return out
    return finish_ser(C, C.args[0], [(C.st, J(C.prog, "String", C.val(1)))])


@serializer("serialize_bool")
def m_ser_bool(C):
    return finish_ser(C, C.args[0], [(C.st, J(C.prog, "Bool", C.val(1)))])


@serializer(*["serialize_" + x for x in "i8 i16 i32 i64 u8 u16 u32 u64".split()])
def m_ser_int(C):
    return finish_ser(C, C.args[0], [(C.st, number(C.prog, num(box(C.val(1)), strip(C.prog.types[C.c["ins"][1]]))))])


@serializer("serialize_none", "serialize_unit")
def m_ser_none(C):
    return finish_ser(C, C.args[0], [(C.st, null(C.prog))])


@serializer("serialize_bytes")
def m_ser_bytes(C):
    return C.one(C.ok(J(C.prog, "Object", VMap(z3.Store(EMPTY_MAP, box_str(pstr(BYTES_KEY)), box(J(C.prog, "String", C.val(1)))), None, None))))


@serializer("serialize_some")
def m_ser_some(C):
    return finish_ser(C, C.args[0], ser_value(C.ex, C.st, C.targ(1), C.args[1]))


@serializer("serialize_newtype_struct")
def m_ser_nts(C):
    return finish_ser(C, C.args[0], ser_value(C.ex, C.st, C.targ(1), C.args[2]))


@serializer("serialize_unit_variant")
def m_ser_uv(C):
    return finish_ser(C, C.args[0], [(C.st, J(C.prog, "String", C.val(3)))])


@serializer("serialize_newtype_variant")
def m_ser_ntv(C):
    out = []
    for s, j in ser_value(C.ex, C.st, C.targ(1), C.args[4]):
        out.append((s, None if j is None else J(C.prog, "Object", VMap(z3.Store(EMPTY_MAP, box(C.val(3)), box(j)), None, None))))
    return finish_ser(C, C.args[0], out)


@serializer("serialize_struct", "serialize_map")
def m_ser_struct(C):
    tgt = flat_target(C.ex, C.st, C.args[0])
    return C.one(C.ok(tgt if tgt is not None else VMap(EMPTY_MAP, None, None)))


@serializer("serialize_struct_variant")
def m_ser_sv(C):
    return C.one(C.ok(VTup([C.val(3), VMap(EMPTY_MAP, None, None)])))


@serializer("serialize_seq", "serialize_tuple", "serialize_tuple_struct")
def m_ser_seq(C):
    return C.one(C.ok(VSeq(C.prog.ty_by_s("serde_json::Value"), [])))


@serializer("collect_seq")
def m_collect_seq(C):
    """The elements of a vector or slice, written as the vector is."""
    x = C.val(1)
    if isinstance(x, VIter):
        if x.pos != 0 or x.rev or x.end is not None or any(s[0] not in ("deref", "ref", "id") for s in x.stages):
            raise Unsupported("collect_seq of an adapted iterator")
        x = x.base
    vt = C.prog.ty_by_s("std::vec::Vec<" + strip(x.ety).s + ">") if isinstance(x, (VSeq, VSSeq)) and x.ety is not None else None
    if vt is None:
        raise Unsupported("collect_seq of this iterator")
    return finish_ser(C, C.args[0], ser_value(C.ex, C.st, vt, x))


def inner_mut(C, i=0):
    m = C.args[i]
    while isinstance(m, VRef):
        m = m.x
    while isinstance(m, VMut) and isinstance(C.ex.read_mut(C.st, m), VMut):
        m = C.ex.read_mut(C.st, m)
    return m


def entry(C, kt, ty, v):
    m = inner_mut(C)
    out = []
    for r in ser_value(C.ex, C.st, ty, v):
        if r[0] == "panic":
            out.append(r)
            continue
        s, j = r
        if j is None:
            out.append((s, C.err()))
            continue
        cur = C.ex.read_mut(s, m)
        if isinstance(cur, VTup):
            new = VTup([cur.fs[0], VMap(z3.Store(cur.fs[1].arr, kt, box(j)), None, None)])
        else:
            new = VMap(z3.Store(cur.arr, kt, box(j)), cur.kty, cur.vty)
        C.ex.write_mut(s, m, new)
        out.append((s, C.ok(UNIT)))
    return out


@tmodel("serde::ser::SerializeStruct", "serialize_field")
def m_sfield(C):
    return entry(C, box(C.val(1)), C.targ(1), C.args[2])


TRAIT[("serde::ser::SerializeStructVariant", "serialize_field")] = m_sfield


@tmodel("serde::ser::SerializeStruct", "skip_field")
def m_skip(C):
    return C.one(C.ok(UNIT))


TRAIT[("serde::ser::SerializeStructVariant", "skip_field")] = m_skip


@tmodel("serde::ser::SerializeMap", "serialize_entry")
def m_sentry(C):
    return entry(C, box(C.val(1)), C.targ(2), C.args[2])


@tmodel("serde::ser::SerializeStruct", "end")
def m_send(C):
    a = C.args[0]
    if isinstance(a, VMut):
        return C.one(C.ok(UNIT))
    v = C.val(0)
    if isinstance(v, VTup):
        return C.one(C.ok(J(C.prog, "Object", VMap(z3.Store(EMPTY_MAP, box(v.fs[0]), box(J(C.prog, "Object", v.fs[1]))), None, None))))
    return C.one(C.ok(J(C.prog, "Object", v)))


for tr in ("SerializeMap", "SerializeStructVariant"):
    TRAIT[("serde::ser::" + tr, "end")] = m_send


@tmodel("serde::ser::SerializeTuple", "serialize_element")
def m_selem(C):
    m = inner_mut(C)
    out = []
    for s, j in ser_value(C.ex, C.st, C.targ(1), C.args[1]):
        if j is None:
            out.append((s, C.err()))
            continue
        cur = C.ex.read_mut(s, m)
        C.ex.write_mut(s, m, VSeq(cur.ety, list(cur.xs) + [j]))
        out.append((s, C.ok(UNIT)))
    return out


@tmodel("serde::ser::SerializeTuple", "end")
def m_selend(C):
    return C.one(C.ok(J(C.prog, "Array", C.val(0))))


for tr in ("SerializeSeq", "SerializeTupleStruct"):
    TRAIT[("serde::ser::" + tr, "end")] = m_selend
TRAIT[("serde::ser::SerializeSeq", "serialize_element")] = m_selem
TRAIT[("serde::ser::SerializeTupleStruct", "serialize_field")] = m_selem


@tmodel("serde::Serialize", "serialize")
def m_serialize(C):
    return finish_ser(C, C.args[1], ser_value(C.ex, C.st, C.targ(0), C.args[0], top=True))


# ---------------------------------------------------------------- deserialising
def de_value(ex, st, ty, j, top=False):
    """-> list of (state, value | None)."""
    prog = ex.prog
    t = strip(ty)
    j = deref(j)
    if isinstance(j, VRaw):
        j = jsym(prog, j.t)
    p = t.path if t.k == "adt" else None

    def on(f, good):
        out = []
        for s, b in ex.branch(st, [(f, True), (z3.Not(f), False)]):
            out += good(s) if b else [(s, None)]
        return out
    if p == "std::string::String" or t.k == "str":
        return on(kind(prog, j, "String"), lambda s: [(s, deref(j_payload(prog, j, "String")))])
    if t.k == "bool":
        return on(kind(prog, j, "Bool"), lambda s: [(s, deref(j_payload(prog, j, "Bool")))])
    if t.k == "int":
        def good(s):
            x = box(j_payload(prog, j, "Number"))
            v = toi(uf_term("num_val", x))
            lo, hi = models_range(t)
            f = z3.And(fn("num_is_int", U, BOOL)(x), v >= lo, v <= hi)
            return [(s2, VInt(v) if b else None) for s2, b in ex.branch(s, [(f, True), (z3.Not(f), False)])]
        return on(kind(prog, j, "Number"), good)
    if p == "serde_json::Value":
        return [(st, j)]
    if p == "serde_json::Map":
        return on(kind(prog, j, "Object"), lambda s: [(s, deref(j_payload(prog, j, "Object")))])
    if t.k == "tuple" and not t.elems:
        return on(kind(prog, j, "Null"), lambda s: [(s, UNIT)])
    if p is not None and p.endswith("de::IgnoredAny"):
        return [(st, VOpaque("ignored"))]
    if p is not None and re.search(r"__private\d*::de::(content::)?Content$", p):
        return [(st, j)]
    if p in ("serde_bytes::ByteBuf",):
        def good(s):
            m = deref(j_payload(prog, j, "Object")).arr
            x = z3.simplify(z3.Select(m, box_str(pstr(BYTES_KEY))))
            f = z3.And(x != absent, kind(prog, jsym(prog, x), "String"))
            return [(s2, deref(j_payload(prog, jsym(prog, x), "String")) if b else None) for s2, b in ex.branch(s, [(f, True), (z3.Not(f), False)])]
        return on(kind(prog, j, "Object"), good)
    if p == "ciborium::Value":
        # any CBOR item is a value, whose own encoding is that item
        return [(st, VSym(t, uf_term("cbor_value", box(j))))]
    if p == "url::Url":
        def good(s):
            r = parse_url_term(prog, deref(j_payload(prog, j, "String")).e)
            f = disc(r) == 0
            return [(s2, VSym(t, fld_term("std::result::Result", "Ok", 0, r)) if b else None)
                    for s2, b in ex.branch(s, [(f, True), (z3.Not(f), False)])]
        return on(kind(prog, j, "String"), good)
    if p == "std::option::Option":
        out = []
        nf = kind(prog, j, "Null")
        for s, b in ex.branch(st, [(nf, True), (z3.Not(nf), False)]):
            if b:
                out.append((s, VAdt(t, t.vindex("None"), [])))
            else:
                out += [r if r[0] == "panic" else (r[0], VAdt(t, t.vindex("Some"), [r[1]]) if r[1] is not None else None) for r in de_value(ex, s, t.arg(0), j)]
        return out
    if t.k == "tuple":
        n = len(t.elems)

        def good(s):
            a = deref(j_payload(prog, j, "Array"))
            f = ex_len(a) == n
            outs = []
            for s2, b in ex.branch(s, [(f, True), (z3.Not(f), False)]):
                if not b:
                    outs.append((s2, None))
                    continue
                cur = [(s2, [])]
                for i, et in enumerate(t.elems):
                    nxt = []
                    for s3, acc in cur:
                        if acc is None:
                            nxt.append((s3, None))
                            continue
                        nxt += [(s4, acc + [v] if v is not None else None) for s4, v in de_value(ex, s3, et, seq_at(prog, a, i))]
                    cur = nxt
                outs += [(s3, VTup(acc) if acc is not None else None) for s3, acc in cur]
            return outs
        return on(kind(prog, j, "Array"), good)
    if p == "std::vec::Vec" and simple(strip(t.arg(0))):
        et = strip(t.arg(0))
        want = {"std::string::String": "String", "serde_json::Map": "Object"}.get(et.path)

        def good(s):
            a = deref(j_payload(prog, j, "Array"))
            if want is None:
                return [(s, a)]
            if isinstance(a, VSeq):
                f = z3.simplify(z3.And([j_is(prog, x, want) for x in a.xs])) if a.xs else z3.BoolVal(True)
                return [(s2, VSeq(t.arg(0), [deref(j_payload(prog, x, want)) for x in a.xs]) if b else None)
                        for s2, b in ex.branch(s, [(f, True), (z3.Not(f), False)])]
            jt = prog.ty_by_s("serde_json::Value")
            k = z3.Int("j~fv")
            f = forall([k], z3.Implies(z3.And(k >= 0, k < slen_term(a.t)), disc(sat_(a.t, k)) == jt.discr(jt.vindex(want))), sat_(a.t, k))
            i = z3.Int(fresh_name("idx"))
            it = VIter(a, 0)
            body = box(j_payload(prog, ex.iter_at(it, i), want))
            r = ex.comprehension(it, i, body, t.arg(0))
            return [(s2, r if b else None) for s2, b in ex.branch(s, [(f, True), (z3.Not(f), False)])]
        return on(kind(prog, j, "Array"), good)
    if p == "std::vec::Vec" and seq_inline(strip(t.arg(0))):
        def good(s):
            a = deref(j_payload(prog, j, "Array"))
            if isinstance(a, VSeq):
                cur = [(s, [])]
                for x in a.xs:
                    cur = [(s3, acc + [v] if v is not None else None) if acc is not None else (s2, None)
                           for s2, acc in cur for s3, v in (de_value(ex, s2, t.arg(0), x, top=True) if acc is not None else [(s2, None)])]
                return [(s2, VSeq(t.arg(0), acc) if acc is not None else None) for s2, acc in cur]
            ok, body, it, i = generic_elem(ex, s, a, lambda g, e: de_value(ex, g, t.arg(0), e, top=True))
            k = z3.Int("j~fv")
            f = z3.BoolVal(True) if z3.is_true(ok) else forall([k], z3.Implies(z3.And(k >= 0, k < slen_term(a.t)), z3.substitute(ok, (i, k))), sat_(a.t, k))
            return [(s2, (ex.comprehension(it, i, body, t.arg(0)) if body is not None else VSeq(t.arg(0), [])) if b else None)
                    for s2, b in ex.branch(s, [(f, True), (z3.Not(f), False)])]
        return on(kind(prog, j, "Array"), good)
    if is_local(t) and (top or t.path.split("::")[-1] in INLINE or is_field(t)):
        key = index(prog)["de"].get(t.path)
        if key is not None:
            return result_pairs(ex, ex.run_body(key, [j], st))
    nm = "de<" + tyname(t) + ">"
    opaque_note(ex, st, nm, t)
    r = uf_term(nm, box(j))
    if not AX.has(r, "de"):
        AX.add(r, z3.Or(disc(r) == 0, disc(r) == 1))
        jt = prog.ty_by_s("serde_json::Value")
        for pth, kd in (("std::vec::Vec", "Array"), ("std::collections::HashMap", "Object"), ("std::collections::BTreeMap", "Object")):
            if p == pth:
                AX.add(r, z3.Implies(disc(r) == 0, disc_term(jt, box(j)) == jt.discr(jt.vindex(kd))))
    f = disc(r) == 0
    return [(s, unbox(t, fld_term("std::result::Result", "Ok", 0, r)) if b else None) for s, b in ex.branch(st, [(f, True), (z3.Not(f), False)])]


def is_field(t):
    return re.search(r"::__Field(#\d+)?$", t.path) is not None


def ex_len(a):
    return z3.IntVal(len(a.xs)) if isinstance(a, VSeq) else slen_term(a.t)


def seq_at(prog, a, i):
    if isinstance(a, VSeq):
        return a.xs[i] if i < len(a.xs) else null(prog)
    return jsym(prog, sat_(a.t, i))


@tmodel("serde::Deserialize", "deserialize")
def m_deserialize(C):
    return as_result(C, de_value(C.ex, C.st, C.targ(0), flat_de(C, C.val(0)), top=nested_top(C)))


def nested_top(C):
    """Variants of untagged enums and wrapped types are executed only if they are cheap or have no contract."""
    t, d = strip(C.targ(0)), C.targ(1)
    if d is not None and strip(d).k == "adt" and strip(d).path == "serde_json::Value":
        return True  # from JSON, as from_value does
    return not (is_local(t) and t.path in ROUNDTRIP)


@tmodel("serde::de::DeserializeSeed", "deserialize")
def m_seed(C):
    return C.one(C.ok(C.val(1)))


def m_new_opaque(C):
    return C.one(VOpaque("visitor"))


def dispatch_private(path):
    if re.match(r"serde(_core)?::__?private\w*::de::(content::)?ContentVisitor::<'de>::new", path):
        return m_new_opaque
    if re.match(r"serde(_core)?::__?private\w*::de::(content::)?ContentRefDeserializer::<.*>::new", path):
        return lambda C: C.one(C.val(0))
    if re.match(r"serde(_core)?::__?private\w*::de::(content::)?UntaggedUnitVisitor::<.*>::new", path):
        return lambda C: C.one(VOpaque("untagged-unit"))
    if re.match(r"serde(_core)?::__?private\w*::de::missing_field", path):
        return m_missing
    return None


def m_private(C):
    f = dispatch_private(C.c.get("rpath") or C.c["path"])
    return f(C) if f else NotImplemented


models.PREFIX.append(("serde::__private", m_private))
models.PREFIX.append(("serde_core::", m_private))


def m_missing(C):
    t = strip(C.ret.arg(0))
    if t.path == "std::option::Option":
        return C.one(C.ok(VAdt(t, t.vindex("None"), [])))
    return C.one(C.err())


def m_error(C):
    return C.one(VOpaque("err"))


for m in ("custom", "invalid_type", "invalid_value", "invalid_length", "unknown_variant", "unknown_field", "missing_field", "duplicate_field"):
    TRAIT[("serde::de::Error", m)] = m_error
TRAIT[("serde::ser::Error", "custom")] = m_error


# ------------------------------------------------ visitors
def visitor(C, i, m):
    v = C.val(i)
    t = v.ty if isinstance(v, (VAdt, VSym)) else C.prog.types[C.c["ins"][i]]
    return index(C.prog)["vis"].get((strip(t).path, m))


def cases(C, j, table):
    """table: JSON kind -> function(state) -> results; other kinds are errors."""
    out = []
    conds, none = [], []
    for k, f in table.items():
        if f is not None:
            c = kind(C.prog, j, k)
            conds.append((c, f))
            none.append(z3.Not(c))
    conds.append((z3.And(none) if none else z3.BoolVal(True), None))
    for s, f in C.ex.branch(C.st, conds):
        out += f(s) if f is not None else [("ret", s, C.err())]
    return out


def run_visit(C, i, m, *extra):
    key = visitor(C, i, m)
    if key is None:
        return None
    return lambda s: C.ex.run_body(key, [C.args[i]] + [e(s) if callable(e) else e for e in extra], s)


def map_token(C, j, fields):
    m = deref(j_payload(C.prog, j, "Object"))
    ty = C.prog.ty_by_s("&str") or C.prog.ty_by_s("str")
    return VTup([VMap(m.arr, None, None), VPos(0), VSeq(ty, [VStr(pstr(f)) for f in fields])])


def field_names(C, i):
    v = C.val(i)
    if isinstance(v, VSeq):
        return [models.pybytes(val(C.ex, C.st, x).e).decode() for x in v.xs]
    raise Unsupported("field names")


_seqn = [0]


def visit_seq(C, vi, j):
    key = visitor(C, vi, "visit_seq")
    if key is None:
        return None

    def f(s):
        a = deref(j_payload(C.prog, j, "Array"))
        _seqn[0] += 1
        cell = ("de", _seqn[0])
        s.cells[cell] = VTup([a, VPos(0)])
        out = []
        for kd, s2, v in C.ex.run_body(key, [C.args[vi], VMut(cell, ())], s):
            if kd == "panic":
                out.append((kd, s2, v))
                continue
            pos = z3.IntVal(s2.cells.pop(cell).fs[1].n)
            for s3, nm, pay in split_result(C.ex, s2, v):
                if nm == "Err":
                    out.append(("ret", s3, C.err()))
                    continue
                full = z3.simplify(pos == ex_len(a))
                for s4, b in C.ex.branch(s3, [(full, True), (z3.Not(full), False)]):
                    out.append(("ret", s4, C.ok(pay) if b else C.err()))
        return out
    return f


def visit_map(C, vi, j, fields):
    key = visitor(C, vi, "visit_map")
    if key is None:
        return None
    return lambda s: C.ex.run_body(key, [C.args[vi], map_token(C, j, fields)], s)


def literals(body):
    out = []

    def walk(o):
        if isinstance(o, dict):
            if o.get("v") == "bytes" and "b" in o:
                out.append(o["b"])
            for v in o.values():
                walk(v)
        elif isinstance(o, list):
            for v in o:
                walk(v)
    walk(body["blocks"])
    return out


def key_type_fields(C, kt):
    """Literals the identifier type of a visitor recognises."""
    key = index(C.prog)["de"].get(kt.path)
    if key is None:
        raise Unsupported("map key type " + kt.s)
    pre, fname = kt.path.rsplit("::", 1)
    num = fname[len("__Field"):]
    vis = None
    for (vp, m), k2 in index(C.prog)["vis"].items():
        if m == "visit_str" and vp == pre + "::__FieldVisitor" + num:
            vis = k2
    if vis is None:
        raise Unsupported("identifier visitor of " + kt.s)
    seen = []
    for x in literals(C.prog.bodies[vis]):
        if x not in seen:
            seen.append(x)
    return seen


@tmodel("serde::Deserializer", "deserialize_struct")
def m_de_struct(C):
    j = C.val(0)
    fs = field_names(C, 2)
    return cases(C, j, {"Object": visit_map(C, 3, j, fs), "Array": visit_seq(C, 3, j)})


@tmodel("serde::Deserializer", "deserialize_map")
def m_de_map(C):
    j = C.val(0)
    return cases(C, j, {"Object": visit_map(C, 1, j, ["?"])})


@tmodel("serde::Deserializer", "deserialize_newtype_struct")
def m_de_nts(C):
    j = C.val(0)
    f = run_visit(C, 2, "visit_newtype_struct", j)
    if f is None:
        raise Unsupported("newtype visitor")
    return f(C.st)


def m_de_str(C):
    j = C.val(0)
    f = run_visit(C, 1, "visit_string", lambda s: deref(j_payload(C.prog, j, "String"))) or \
        run_visit(C, 1, "visit_str", lambda s: VRef(deref(j_payload(C.prog, j, "String"))))
    return cases(C, j, {"String": f})


for m in ("deserialize_identifier", "deserialize_str", "deserialize_string"):
    TRAIT[("serde::Deserializer", m)] = m_de_str


def m_de_tuple(C):
    j = C.val(0)
    vi = len(C.args) - 1
    return cases(C, j, {"Array": visit_seq(C, vi, j)})


for m in ("deserialize_tuple", "deserialize_seq", "deserialize_tuple_struct"):
    TRAIT[("serde::Deserializer", m)] = m_de_tuple


@tmodel("serde::Deserializer", "deserialize_any")
def m_de_any(C):
    j = C.val(0)
    v = C.val(1)
    if isinstance(v, VOpaque):
        if v.what == "untagged-unit":
            return cases(C, j, {"Null": lambda s: [("ret", s, C.ok(UNIT))]})
        return C.one(C.ok(j))
    return cases(C, j, {
        "Object": visit_map(C, 1, j, ["?"]), "Array": visit_seq(C, 1, j),
        "String": run_visit(C, 1, "visit_str", lambda s: VRef(deref(j_payload(C.prog, j, "String")))),
        "Bool": run_visit(C, 1, "visit_bool", lambda s: deref(j_payload(C.prog, j, "Bool"))),
        "Null": run_visit(C, 1, "visit_unit")})


@tmodel("serde::Deserializer", "deserialize_enum")
def m_de_enum(C):
    j = C.val(0)
    key = visitor(C, 3, "visit_enum")
    if key is None:
        raise Unsupported("enum visitor")
    p = C.prog

    def unit(s):
        return C.ex.run_body(key, [C.args[3], VTup([j_str(p, j), VBool(True), null(p)])], s)

    def obj(s):
        arr = deref(j_payload(p, j, "Object")).arr
        k = fn("only_key", UM, STR)(arr)
        kt = box_str(k)
        v = z3.Select(arr, kt)
        one = z3.And(v != absent, arr == z3.Store(EMPTY_MAP, kt, v))
        if z3.is_store(arr) and arr.arg(0).eq(EMPTY_MAP):
            k = tos(arr.arg(1))
            v, one = arr.arg(2), z3.BoolVal(True)
        else:
            # any single entry is the only one
            if not AX.has(arr, "only"):
                q = z3.Const("k~only", STR)
                AX.add(fn("only_key", UM, STR)(arr), z3.ForAll([q], z3.Implies(
                    z3.And(z3.Select(arr, mkS(q)) != absent, arr == z3.Store(EMPTY_MAP, mkS(q), z3.Select(arr, mkS(q)))), q == k)))
        out = []
        for s2, b in C.ex.branch(s, [(one, True), (z3.Not(one), False)]):
            if b:
                out += C.ex.run_body(key, [C.args[3], VTup([VStr(k), VBool(False), jsym(p, v)])], s2)
            else:
                out.append(("ret", s2, C.err()))
        return out
    return cases(C, j, {"String": unit, "Object": obj})


def j_str(p, j):
    return deref(j_payload(p, j, "String"))


@tmodel("serde::de::EnumAccess", "variant")
def m_variant(C):
    tok = C.val(0)
    k = tok.fs[0]
    out = []
    for s, v in de_value(C.ex, C.st, C.targ(1), J(C.prog, "String", k), top=True):
        out.append((s, C.ok(VTup([v, tok])) if v is not None else C.err()))
    return out


def is_unit(tok):
    return z3.is_true(z3.simplify(tok.fs[1].e))


@tmodel("serde::de::VariantAccess", "unit_variant")
def m_unitv(C):
    tok = C.val(0)
    if is_unit(tok):
        return C.one(C.ok(UNIT))
    return [(s, C.ok(UNIT) if b else C.err()) for s, b in C.branch(kind(C.prog, tok.fs[2], "Null"))]


@tmodel("serde::de::VariantAccess", "newtype_variant")
def m_ntv(C):
    tok = C.val(0)
    if is_unit(tok):
        return C.one(C.err())
    return as_result(C, de_value(C.ex, C.st, C.targ(1), tok.fs[2]))


@tmodel("serde::de::VariantAccess", "struct_variant")
def m_sv(C):
    tok = C.val(0)
    if is_unit(tok):
        return C.one(C.err())
    j = tok.fs[2]
    fs = field_names(C, 1)
    return cases(C, j, {"Object": visit_map(C, 2, j, fs), "Array": visit_seq(C, 2, j)})


# ------------------------------------------------ map and sequence access
UNK = z3.String("unknown~key")


@tmodel("serde::de::MapAccess", "next_key")
def m_next_key(C):
    m = inner_mut(C)
    tok = C.ex.read_mut(C.st, m)
    i = tok.fs[1].n
    names = [models.pybytes(x.e).decode() for x in tok.fs[2].xs]
    kt = strip(C.targ(1))
    if names == ["?"]:
        names = key_type_fields(C, kt)
        tok = VTup([tok.fs[0], tok.fs[1], VSeq(tok.fs[2].ety, [VStr(pstr(n)) for n in names])])
    opt = C.ret.arg(0)
    other = kt.is_enum and kt.vname(kt.nvariants - 1) == "__other"

    def adv(s, n):
        C.ex.write_mut(s, m, VTup([tok.fs[0], VPos(n), tok.fs[2]]))

    def some(x):
        return C.ok(VAdt(opt, opt.vindex("Some"), [x]))
    st = C.st
    if i >= len(names):
        if other and i == len(names):
            # everything else, delivered at once under a placeholder key
            adv(st, i + 1)
            return [(st, some(VAdt(kt, kt.vindex("__other"), [null(C.prog)])))]
        adv(st, i + 1)
        return [(st, C.ok(VAdt(opt, opt.vindex("None"), [])))]
    x = z3.simplify(z3.Select(tok.fs[0].arr, box_str(pstr(names[i]))))
    out = []
    for s, b in C.ex.branch(st, [(x != absent, True), (x == absent, False)]):
        adv(s, i + 1)
        if b:
            for s2, v in de_value(C.ex, s, kt, J(C.prog, "String", VStr(pstr(names[i]))), top=True):
                out.append((s2, some(v) if v is not None else C.err()))
        elif kt.is_enum and kt.vname(kt.nvariants - 1) in ("__ignore", "__other"):
            # an absent key: an iteration that changes nothing
            if kt.vname(kt.nvariants - 1) == "__ignore":
                out.append((s, some(VAdt(kt, kt.nvariants - 1, []))))
            else:
                # skip to what follows (flattened structs have few known fields)
                C2 = Call(C.ex, s, C.c, C.args)
                out += m_next_key(C2)
        else:
            raise Unsupported("visitor that does not ignore unknown keys")
    return out


def current_value(C):
    m = inner_mut(C)
    tok = C.ex.read_mut(C.st, m)
    i = tok.fs[1].n - 1
    names = tok.fs[2].xs
    if i >= len(names):
        arr = tok.fs[0].arr
        for n in names:
            arr = z3.Store(arr, box(n), absent)
        return J(C.prog, "Object", VMap(arr, None, None))
    return jsym(C.prog, z3.simplify(z3.Select(tok.fs[0].arr, box(names[i]))))


@tmodel("serde::de::MapAccess", "next_value")
def m_next_value(C):
    t = strip(C.targ(1))
    if t.path and t.path.endswith("de::IgnoredAny"):
        return C.one(C.ok(VOpaque("ignored")))
    return as_result(C, de_value(C.ex, C.st, t, current_value(C)))


@tmodel("serde::de::MapAccess", "next_value_seed")
def m_next_value_seed(C):
    return C.one(C.ok(current_value(C)))


@tmodel("serde::de::SeqAccess", "next_element")
def m_next_elem(C):
    m = inner_mut(C)
    tok = C.ex.read_mut(C.st, m)
    a, i = tok.fs[0], tok.fs[1].n
    opt = C.ret.arg(0)
    out = []
    have = z3.simplify(ex_len(a) > i)
    for s, b in C.branch(have):
        if not b:
            out.append((s, C.ok(VAdt(opt, opt.vindex("None"), []))))
            continue
        C.ex.write_mut(s, m, VTup([a, VPos(i + 1)]))
        for r in de_value(C.ex, s, C.targ(1), seq_at(C.prog, a, i)):
            if r[0] == "panic":
                out.append(r)
            else:
                out.append((r[0], C.ok(VAdt(opt, opt.vindex("Some"), [r[1]])) if r[1] is not None else C.err()))
    return out


def flat_de(C, v):
    """Deserialising from a FlatMapDeserializer: the collected rest of the object."""
    if isinstance(v, VAdt) and v.ty.path.endswith("FlatMapDeserializer"):
        sq = val(C.ex, C.st, v.fs[0])
        if not isinstance(sq, VSeq) or len(sq.xs) != 1:
            raise Unsupported("flattened map")
        return deref(sq.xs[0].fs[0].fs[1])
    return v


# ---------------------------------------------------------------- formats
def result_ty(C):
    return C.ret


@model("serde_json::to_value")
def m_to_value(C):
    return as_result(C, ser_value(C.ex, C.st, C.ty(0), C.args[0], top=True))


@model("serde_json::from_value")
def m_from_value(C):
    return as_result(C, de_value(C.ex, C.st, C.ty(0), C.val(0), top=True))


def json_text(prog, j):
    """The text of a JSON value, as a string."""
    t = uf_term("json_text", box(j))
    e = tos(t)
    if not AX.has(t, "jt"):
        AX.add(t, t != absent)
        AX.add(t, uf_term("json_parse", box_str(e)) == ctor_term("std::result::Result", 0, "Ok", 0, [box(j)]))
    return e


@model("serde_json::to_string", "serde_json::to_vec")
def m_to_string(C):
    out = []
    for r in ser_value(C.ex, C.st, C.ty(0), C.args[0], top=True):
        if r[0] == "panic":
            out.append(r)
        else:
            out.append((r[0], C.ok(VStr(json_text(C.prog, r[1]))) if r[1] is not None else C.err()))
    return out


def parsed(name, s):
    r = uf_term(name, box_str(s))
    if not AX.has(r, "parse"):
        AX.add(r, z3.Or(disc(r) == 0, disc(r) == 1))
    return r


def de_text(C, name, s):
    r = parsed(name, s)
    out = []
    for st, b in C.branch(disc(r) == 0):
        if not b:
            out.append((st, C.err()))
            continue
        C2 = Call(C.ex, st, C.c, C.args)
        out += as_result(C2, de_value(C.ex, st, C.ty(0), jsym(C.prog, fld_term("std::result::Result", "Ok", 0, r)), top=True))
    return out


@model("serde_json::from_str", "serde_json::from_slice")
def m_from_str(C):
    return de_text(C, "json_parse", C.val(0).e)


# forms: maps of strings
def all_strings(prog, arr):
    """Every value of the map is a string (a sufficient condition where values are overwritten)."""
    jt = prog.ty_by_s("serde_json::Value")
    k = z3.Const("k~form", U)
    string = lambda v: z3.Or(v == absent, disc(v) == jt.discr(jt.vindex("String")))
    x = arr
    while x.get_id() in exe.UNNAMED:
        x = exe.UNNAMED[x.get_id()]
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        return z3.If(x.arg(0), all_strings(prog, x.arg(1)), all_strings(prog, x.arg(2)))
    if z3.is_store(x):
        return z3.And(string(x.arg(2)), all_strings(prog, x.arg(0)))
    if x.eq(EMPTY_MAP):
        return z3.BoolVal(True)
    return z3.ForAll([k], string(z3.Select(x, k)))


def form_text(prog, arr):
    arr = z3.simplify(arr)
    t = uf_term("form_text", box_map(arr))
    e = tos(t)
    if not AX.has(t, "ft"):
        AX.add(t, t != absent)
        AX.add(t, z3.Implies(all_strings(prog, arr), form_map(prog, e) == arr))
    return e


def form_map(prog, s):
    """The parameters in a form-encoded string: a map of strings."""
    t = uf_term("form_parse", box_str(s))
    m = tom(t)
    if not AX.has(t, "fp"):
        AX.add(t, all_strings(prog, m))
    return m


@model("serde_urlencoded::to_string")
def m_form_to(C):
    out = []
    for r in ser_value(C.ex, C.st, C.ty(0), C.args[0], top=True):
        if r[0] == "panic":
            out.append(r)
            continue
        s, j = r
        if j is None:
            out.append((s, C.err()))
            continue
        for s2, b in C.ex.branch(s, [(kind(C.prog, j, "Object"), True), (z3.Not(kind(C.prog, j, "Object")), False)]):
            if not b:
                out.append((s2, C.err()))
                continue
            arr = deref(j_payload(C.prog, j, "Object")).arr
            # values other than strings may or may not be representable
            ok = z3.Or(all_strings(C.prog, arr), fn("form_representable", UM, BOOL)(arr))
            out += [(s3, C.ok(VStr(form_text(C.prog, arr))) if b3 else C.err()) for s3, b3 in C.ex.branch(s2, [(ok, True), (z3.Not(ok), False)])]
    return out


@model("serde_urlencoded::from_str", "serde_urlencoded::from_bytes")
def m_form_from(C):
    m = form_map(C.prog, C.val(0).e)
    return as_result(C, de_value(C.ex, C.st, C.ty(0), J(C.prog, "Object", VMap(m, None, None)), top=True))


# CBOR
def cbor_text(j):
    t = uf_term("cbor_text", box(j))
    e = tos(t)
    if not AX.has(t, "ct"):
        AX.add(t, t != absent)
        AX.add(t, uf_term("cbor_parse", box_str(e)) == ctor_term("std::result::Result", 0, "Ok", 0, [box(j)]))
    return e


@model("ciborium::into_writer")
def m_cbor_to(C):
    w = inner_mut(C, 1)
    out = []
    for r in ser_value(C.ex, C.st, C.ty(0), C.args[0], top=True):
        if r[0] == "panic":
            out.append(r)
            continue
        s, j = r
        if j is None:
            out.append((s, C.err()))
            continue
        cur = C.ex.read_mut(s, w)
        if not isinstance(cur, VStr):
            raise Unsupported("CBOR writer")
        C.ex.write_mut(s, w, VStr(z3.simplify(z3.Concat(cur.e, cbor_text(j)))))
        out.append((s, C.ok(UNIT)))
    return out


@model("ciborium::from_reader")
def m_cbor_from(C):
    return de_text(C, "cbor_parse", C.val(0).e)


# ------------------------------------------------------------------ josekit (assumed contracts: the crate is not available here)
JW = "josekit::"


@model(JW + "jwt::JwtPayload::new", JW + "jwe::JweHeader::new")
def m_jose_new(C):
    return C.one(VMap(EMPTY_MAP, None, None))


def jose_set(key):
    def f(C):
        m = C.args[0]
        cur = C.ex.read_mut(C.st, m)
        C.ex.write_mut(C.st, m, VMap(z3.Store(cur.arr, box_str(pstr(key)), box(J(C.prog, "String", C.val(1)))), cur.kty, cur.vty))
        return C.one(UNIT)
    return f


for _m, _k in (("set_token_type", "typ"), ("set_algorithm", "alg"), ("set_content_encryption", "enc"), ("set_key_id", "kid")):
    EXACT[JW + "jwe::JweHeader::" + _m] = jose_set(_k)


@model(JW + "jwt::JwtPayload::set_claim")
def m_set_claim(C):
    """Stores the claim, or refuses it (josekit checks the types of registered claims)."""
    m = C.args[0]
    cur = C.ex.read_mut(C.st, m)
    k = box(C.val(1))
    out = []
    for s, x in C.ex.opt(C.st, C.val(2)):
        new = absent if x is None else box(x)
        ok = fn("jose_claim_ok", U, U, BOOL)(k, new)
        for s2, b in C.ex.branch(s, [(ok, True), (z3.Not(ok), False)]):
            if b:
                C.ex.write_mut(s2, m, VMap(z3.Store(cur.arr, k, new), cur.kty, cur.vty))
            out.append((s2, C.ok(UNIT) if b else C.err()))
    return out


@model(JW + "jwk::Jwk::from_bytes")
def m_jwk_from(C):
    """A JSON object with a string kty (and whatever else josekit demands of its members)."""
    r = parsed("json_parse", C.val(0).e)
    j = jsym(C.prog, fld_term("std::result::Result", "Ok", 0, r))
    mp = deref(j_payload(C.prog, j, "Object"))
    ok = z3.And(disc(r) == 0, kind(C.prog, j, "Object"), fn("jose_jwk_ok", U, BOOL)(box(mp)))
    return [(s, C.ok(VMap(mp.arr, None, None)) if b else C.err()) for s, b in C.branch(ok)]


@model(JW + "jwk::Jwk::key_id")
def m_jwk_kid(C):
    m = C.val(0)
    v = jsym(C.prog, z3.Select(m.arr, box_str(pstr("kid"))))
    has = z3.And(v.t != absent, kind(C.prog, v, "String"))
    return [(s, C.some(VRef(deref(j_payload(C.prog, v, "String")))) if b else C.none()) for s, b in C.branch(has)]


known_ext(JW + "jwe::alg::ecdh_es::EcdhEsJweAlgorithm::encrypter_from_jwk", JW + "jwt::encode_with_encrypter")


@tmodel("std::ops::IndexMut", "index_mut")
def m_json_index_mut(C):
    """value["key"] as a place: null becomes an object, a missing member becomes null, anything else panics."""
    a = C.args[0]
    v = C.val(0)
    i = C.val(1)
    if not (isinstance(a, VMut) and isinstance(v, (VAdt, VSym)) and v.ty.path == "serde_json::Value" and isinstance(i, VStr)):
        return NotImplemented
    prog = C.prog
    jt = v.ty
    vi = jt.vindex("Object")
    out = []
    for s, what in C.ex.branch(C.st, [(kind(prog, v, "Object"), "o"), (kind(prog, v, "Null"), "n"),
                                      (z3.And(z3.Not(kind(prog, v, "Object")), z3.Not(kind(prog, v, "Null"))), "x")]):
        if what == "x":
            out.append(("panic", s, "cannot access key in JSON value"))
            continue
        mp = deref(j_payload(prog, v, "Object")) if what == "o" else VMap(EMPTY_MAP, None, None)
        k = box(i)
        old = z3.Select(mp.arr, k)
        new = VMap(z3.Store(mp.arr, k, z3.If(old == absent, box(null(prog)), old)), mp.kty, mp.vty)
        C.ex.write_mut(s, a, J(prog, "Object", new))
        out.append((s, VMut(a.cell, a.path + (("f", vi, 0, jt.field_ty(vi, 0)), ("key", k, jt)))))
    return out


@tmodel("std::convert::Into", "into")
def m_into_text(C):
    """Text into text, where the source type is a parameter of the function."""
    if C.c.get("key") is None and shape(C.ret)[0] == "str" and isinstance(C.val(0), VStr):
        return C.one(C.val(0))
    return NotImplemented
