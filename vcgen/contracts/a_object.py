"""C18 UntypedObject, C24 NonEmptyVec."""
from spec import *

O = "crate::core::object::UntypedObject::"
KEYT = z3.Const("const~crate::core::object::TypedParameter::KEY<T>", U)


def parse_T(t):
    return uf_term("env:std::convert::TryFrom::try_from<serde_json::Value>", t)


def default_of(t):
    return uf_term("default<" + t + ">")


def entry(c, i=0):
    return z3.Select(map_(c.init[i]), KEYT)


@contract(O + "get", "C18")
def get(c):
    e = entry(c)
    c.ensure("C18", "absent key reads as none", lambda p: imp(e == absent, is_var(p.ret, "None")))
    c.ensure("C18", "present value is parsed from its JSON",
             lambda p: imp(e != absent, isv(p.ret, "Some", lambda r: box(r) == parse_T(e))))


@contract(O + "get_or_default", "C18")
def get_or_default(c):
    e = entry(c)
    r = parse_T(e)
    c.ensure("C18", "absent key reads as the default", lambda p: imp(e == absent, isv(p.ret, "Ok", lambda v: box(v) == default_of("T"))))
    c.ensure("C18", "unparseable value is an error", lambda p: imp(z3.And(e != absent, disc(r) != 0), is_var(p.ret, "Err")))
    c.ensure("C18", "parseable value is returned", lambda p: imp(
        z3.And(e != absent, disc(r) == 0), isv(p.ret, "Ok", lambda v: box(v) == fld_term("std::result::Result", "Ok", 0, r))))


@contract(O + "remove", "C18")
def remove(c):
    e = entry(c)
    m = map_(c.init[0])
    c.ensure("C18", "removes exactly the key", lambda p: map_(p.fin[0]) == z3.Store(m, KEYT, absent))
    c.ensure("C18", "absent key removes to none", lambda p: imp(e == absent, is_var(p.ret, "None")))
    c.ensure("C18", "returns the parsed removed value", lambda p: imp(e != absent, isv(p.ret, "Some", lambda r: box(r) == parse_T(e))))


@contract(O + "insert", "C18")
def insert(c):
    e = entry(c)
    m = map_(c.init[0])
    j = uf_term("env:std::convert::TryInto::try_into<serde_json::Value>", box(c.init[1]))
    jv_ = fld_term("std::result::Result", "Ok", 0, j)
    c.ensure("C18", "stores the parameter's JSON under its key and nothing else",
             lambda p: imp(disc(j) == 0, map_(p.fin[0]) == z3.Store(m, KEYT, jv_)))
    c.ensure("C18", "a parameter without JSON changes nothing", lambda p: imp(disc(j) != 0, map_(p.fin[0]) == m))
    c.ensure("C18", "a parameter without JSON is an error",
             lambda p: imp(disc(j) != 0, isv(p.ret, "Some", lambda r: is_var(r, "Err"))))
    c.ensure("C18", "no previous value", lambda p: imp(z3.And(disc(j) == 0, e == absent), is_var(p.ret, "None")))
    c.ensure("C18", "returns the parsed previous value",
             lambda p: imp(z3.And(disc(j) == 0, e != absent), isv(p.ret, "Some", lambda r: box(r) == parse_T(e))))


@contract("crate::core::object::<impl std::convert::From<crate::core::object::UntypedObject> for serde_json::Value>::from", "C18")
def to_json(c):
    c.ensure("C18", "JSON of an object is its own map", lambda p: isv(p.ret, "Object", lambda m: map_(m) == map_(c.init[0])))


@contract("<std::option::Option<std::result::Result<T, anyhow::Error>> as crate::core::object::ParsingErrorContext>::parsing_error", "C18")
def perr_opt(c):
    a = c.init[0]
    c.ensure("C18", "missing is an error", lambda p: imp(is_var(a, "None"), is_var(p.ret, "Err")))
    c.ensure("C18", "unparseable is an error", lambda p: when(a, "Some", lambda r: imp(is_var(r, "Err"), is_var(p.ret, "Err"))))
    c.ensure("C18", "parseable is returned", lambda p: when(a, "Some", lambda r: when(
        r, "Ok", lambda v: isv(p.ret, "Ok", lambda w: box(w) == box(v)))))


@contract("<std::result::Result<T, anyhow::Error> as crate::core::object::ParsingErrorContext>::parsing_error", "C18")
def perr_res(c):
    r = c.init[0]
    c.ensure("C18", "unparseable is an error", lambda p: imp(is_var(r, "Err"), is_var(p.ret, "Err")))
    c.ensure("C18", "parseable is returned", lambda p: when(r, "Ok", lambda v: isv(p.ret, "Ok", lambda w: box(w) == box(v))))


@contract(["<crate::core::object::UntypedObject as std::clone::Clone>::clone"], "C18")
def oclone(c):
    c.ensure("C18", "a clone is equal", lambda p: map_(p.ret) == map_(c.init[0]))


@contract("<crate::core::object::UntypedObject as std::default::Default>::default", "C18")
def odef(c):
    c.ensure("C18", "the default object is empty", lambda p: map_(p.ret) == EMPTY_MAP)


# ---------------------------------------------------------------- NonEmptyVec
N = "crate::utils::NonEmptyVec::<T>::"
NT = "<crate::utils::NonEmptyVec<T> as "


def vec(v):
    """The sequence behind a NonEmptyVec, Vec or slice."""
    v = plain(v)
    if isinstance(v, (VSeq, VSSeq)):
        return v
    if isinstance(v, VIter):
        if any(k != "ref" for k, _ in v.stages) or v.rev or not (isinstance(v.pos, int) and v.pos == 0) or v.end is not None:
            raise Unsupported("iterator is not the plain iteration")
        return vec(v.base)
    return vec(fld(v, 0))


def length(v):
    v = vec(v)
    return z3.IntVal(len(v.xs)) if isinstance(v, VSeq) else slen_term(v.t)


def elem(v, i):
    v = vec(v)
    if isinstance(v, VSeq):
        if isinstance(i, int):
            return box(v.xs[i])
        return sat_(box(v), i)
    return sat_(v.t, i)


def same_seq(a, b):
    """Element for element."""
    a, b = vec(a), vec(b)
    if box(a).eq(box(b)):
        return T
    k = z3.Int("k~el")
    ea = elem(a, k)
    return z3.And(length(a) == length(b),
                  z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < length(a)), ea == elem(b, k))))


@contract(N + "new", "C24")
def nev_new(c):
    c.ensure("C24", "a single-element list holds that element",
             lambda p: z3.And(length(p.ret) == 1, elem(p.ret, 0) == box(c.init[0])))


@contract([NT + "std::convert::TryFrom<std::vec::Vec<T>>>::try_from"], "C24")
def nev_try(c):
    a = c.init[0]
    c.ensure("C24", "an empty vector is rejected", lambda p: imp(length(a) == 0, is_var(p.ret, "Err")))
    c.ensure("C24", "a non-empty vector is kept as it is",
             lambda p: imp(length(a) > 0, isv(p.ret, "Ok", lambda v: same_seq(v, a))))


@contract(N + "maybe_new", "C24")
def nev_maybe(c):
    a = c.init[0]
    c.ensure("C24", "an empty vector is rejected", lambda p: imp(length(a) == 0, is_var(p.ret, "None")))
    c.ensure("C24", "a non-empty vector is kept as it is",
             lambda p: imp(length(a) > 0, isv(p.ret, "Some", lambda v: same_seq(v, a))))


@contract(NT + "std::default::Default>::default", "C24")
def nev_default(c):
    c.ensure("C24", "the default list is not empty", lambda p: length(p.ret) >= 1)


@contract(N + "push", "C24")
def nev_push(c):
    a = c.init[0]
    k = z3.Int("k~push")

    def post(p):
        f = p.fin[0]
        n = length(a)
        return z3.And(length(f) == n + 1, elem(f, n) == box(c.init[1]),
                      z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), elem(f, k) == elem(a, k))))
    c.ensure("C24", "push appends and keeps the rest", post)
    c.ensure("C24", "push keeps the list non-empty", lambda p: length(p.fin[0]) >= 1)


@contract([N + "into_inner", "crate::utils::<impl std::convert::From<crate::utils::NonEmptyVec<T>> for std::vec::Vec<T>>::from",
           NT + "std::convert::AsRef<[T]>>::as_ref", NT + "std::ops::Deref>::deref",
           NT + "std::iter::IntoIterator>::into_iter", "<&'a crate::utils::NonEmptyVec<T> as std::iter::IntoIterator>::into_iter",
           NT + "std::clone::Clone>::clone"], "C24")
def nev_out(c):
    c.ensure("C24", "elements and order are preserved", lambda p: same_seq(p.ret, c.init[0]))
