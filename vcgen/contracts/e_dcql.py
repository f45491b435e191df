"""C25 DCQL queries; round trips of serialised types."""
import serde_m
from spec import *
from contracts.a_object import length, elem, vec
from contracts.d_params import *


def fields_of(v):
    ty = strip(plain(v).ty)
    return [ty.d["vs"][0]["fs"][i]["n"] for i in range(ty.nfields(0))]


def only_changed(before, after, field, new):
    cs = [equal(fld(after, field), new)]
    for f in fields_of(before):
        if f != field:
            cs.append(equal(fld(after, f), fld(before, f)))
    return z3.And(cs)


def setter(t, name, field, props):
    @contract(f"{t}::{name}", props)
    def f(c):
        c.ensure(props, f"{name} changes exactly its field", lambda p: only_changed(c.init[0], p.fin[0], field, c.init[1]))


def ref_getter(t, name, field, props):
    @contract(f"{t}::{name}", props)
    def f(c):
        def post(p):
            v = fld(c.init[0], field)
            r = plain(p.ret)
            if isinstance(r, (VSeq, VSSeq)) and not isinstance(plain(v), (VSeq, VSSeq)):
                v = fld(v, 0)
            return same_opt2(r, v)
        c.ensure(props, f"{name} returns its field", post)


def same_opt2(r, v):
    r, v = plain(r), plain(v)
    if isinstance(r, VAdt) and r.ty.path == "std::option::Option":
        if r.ty.vname(r.v) == "None":
            return is_var(v, "None")
        return isv(v, "Some", lambda x: equal(r.fs[0], x))
    if isinstance(r, VSym) and isinstance(v, VSym) and strip(r.ty).path == "std::option::Option" and not r.t.eq(v.t):
        return z3.And(is_var(r, "Some") == is_var(v, "Some"), when(r, "Some", lambda x: equal(x, fld(v, 0, "Some"))))
    return equal(r, v)


def mut_getter(t, name, field, props):
    @contract(f"{t}::{name}", props)
    def f(c):
        def post(p):
            m = p.raw
            if not isinstance(m, VMut):
                return F
            s = p.st.fork()
            new = unbox(strip(c.prog.types[find_body(c.prog, c.con.path)["locals"][0]]), z3.Const("new~value", U))
            c.ex.write_mut(s, m, new)
            return z3.And(equal(p.ret, fld(c.init[0], field)), only_changed(c.init[0], c.ex.read_mut(s, c.args[0]), field, new))
        c.ensure(props, f"{name} gives access to exactly its field", post)


def flag(t, name, field, default, props):
    @contract(f"{t}::{name}", props)
    def f(c):
        v = fld(c.init[0], field)
        c.ensure(props, f"absent {field} reads as {default}", lambda p: imp(is_var(v, "None"), b_(p.ret) == z3.BoolVal(default)))
        c.ensure(props, f"an explicit {field} is returned as given", lambda p: when(v, "Some", lambda x: b_(p.ret) == b_(x)))


def build(t, args, props):
    """Constructor: given fields as given, the others absent or empty."""
    @contract(f"{t}::new", props)
    def f(c):
        def post(p):
            cs = []
            for x in fields_of(p.ret):
                v = fld(p.ret, x)
                if x in args:
                    cs.append(equal(v, c.init[args.index(x)]))
                elif isinstance(plain(v), VMap):
                    cs.append(plain(v).arr == EMPTY_MAP)
                else:
                    cs.append(is_var(v, "None"))
            return z3.And(cs)
        c.ensure(props, "a new value holds what was given and nothing else", post)


D = "crate::core::dcql_query::"
CQ, SQ, LQ, TQ = D + "DcqlCredentialQuery", D + "DcqlCredentialSetQuery", D + "DcqlCredentialClaimsQuery", D + "TrustedAuthoritiesQuery"
for _t, _args, _fs, _muts in [
        (D + "DcqlQuery", ["credentials"], ["credentials", "credential_sets"], ["credentials", "credential_sets"]),
        (CQ, ["id", "format"], ["id", "format", "meta", "claims", "claim_sets", "trusted_authorities"],
         ["id", "format", "meta", "claims", "claim_sets", "trusted_authorities"]),
        (TQ, ["authority_type", "values"], ["authority_type", "values"], ["values"]),
        (SQ, ["options"], ["options"], ["options", "required"]),
        (LQ, ["path"], ["id", "path", "values", "intent_to_retain"], ["id", "path", "values", "intent_to_retain"])]:
    build(_t, _args, "C25")
    for _f in _fs:
        ref_getter(_t, _f, _f, "C25")
    for _f in _muts:
        mut_getter(_t, _f + "_mut", _f, "C25")
    for _f in _fs + {CQ: ["require_cryptographic_holder_binding", "multiple"], SQ: ["required"]}.get(_t, []):
        setter(_t, "set_" + _f, _f, "C25")
ref_getter(CQ, "require_cryptographic_holder_binding_raw", "require_cryptographic_holder_binding", "C25")
ref_getter(CQ, "multiple_raw", "multiple", "C25")
ref_getter(SQ, "required_raw", "required", "C25")
flag(CQ, "require_cryptographic_holder_binding", "require_cryptographic_holder_binding", True, "C25")
flag(CQ, "multiple", "multiple", False, "C25")
flag(SQ, "is_required", "required", True, "C25")


def path_part(name, ix):
    @contract(f"{LQ}::{name}", "C25")
    def f(c):
        s = fld(fld(c.init[0], "path"), 0)
        ty = E.prog.ty_by_s(D + "DcqlCredentialClaimsQueryPath")
        e = VSym(ty, sat_(box(s), ix))
        isstr = z3.And(length(s) > ix, is_var(e, "String"))
        c.ensure("C25", f"path component {ix} if it is a string, else none", lambda p: z3.If(
            isstr, isv(p.ret, "Some", lambda x: s_(x) == s_(fld(e, 0, "String"))), is_var(p.ret, "None")))


path_part("namespace", 0)
path_part("element_identifier", 1)


@contract(LQ + "::claim_name", "C25")
def claim_name(c):
    s = fld(fld(c.init[0], "path"), 0)
    ty = E.prog.ty_by_s(D + "DcqlCredentialClaimsQueryPath")
    i, j = z3.Int("i~cn"), z3.Int("j~cn")
    at_ = lambda k: VSym(ty, sat_(box(s), k))
    n = length(s)
    none_after = lambda k: z3.ForAll([j], z3.Implies(z3.And(j > k, j < n), z3.Not(is_var(at_(j), "String"))))
    c.ensure("C25", "the last string component, else none", lambda p: z3.And(
        imp(is_var(p.ret, "None"), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(is_var(at_(j), "String"))))),
        when(p.ret, "Some", lambda x: z3.Exists([i], z3.And(0 <= i, i < n, is_var(at_(i), "String"), s_(fld(at_(i), 0, "String")) == s_(x), none_after(i))))))


# ---------------------------------------------------------------- JSON round trips
def roundtrip(t, props, inv=lambda v: T, members=None, eq=equal):
    """Serialising never fails and parsing the result gives an equal value."""
    @contract([serde_key("ser", t)], props)
    def f(c):
        h = inv(c.init[0])
        c.then(props, "serialising and parsing gives an equal value", [serde_key("de", t)],
               lambda p: imp(h, isv(p.ret, "Ok", lambda v: eq(v, c.init[0]))), ok_first=True)
        if members:
            def shape(p):
                def has_all(j):
                    m = map_(jpay(box(j), "Object"))
                    cs = [jis(box(j), "Object")]
                    left = EMPTY_MAP
                    for k, fname in members.items():
                        v = fld(c.init[0], fname)
                        if strip(plain(v).ty).path == "std::option::Option" if isinstance(plain(v), (VSym, VAdt)) else False:
                            cs.append((at(m, k) == absent) == is_var(v, "None"))
                        else:
                            cs.append(at(m, k) != absent)
                        left = z3.Store(left, key(k), at(m, k))
                    cs.append(m == left)
                    return z3.And(cs)
                return isv(p.ret, "Ok", has_all)
            c.ensure(props, "written with exactly its members, absent ones left out", shape)
    serde_m.ROUNDTRIP.add(t)


def canon_enum(v, table, other):
    v = plain(v)
    ty = strip(v.ty)
    return z3.And(z3.Or([is_var(v, ty.vname(i)) for i in range(ty.nvariants)]),
                  when(v, other, lambda x: z3.And([s_(x) != S(t) for t in table.values()])))


TATYPES = {"Aki": "aki", "EtsiTl": "etsi_tl", "OpenidFederation": "openid_federation"}
roundtrip("crate::utils::NonEmptyVec", "C24 C25", inv=lambda v: length(v) >= 1)
roundtrip(D + "DcqlQuery", "C25 C19", members={k: k for k in ["credentials", "credential_sets"]})
roundtrip(CQ, "C25", members={k: k for k in ["id", "format", "meta", "claims", "claim_sets", "trusted_authorities",
                                            "require_cryptographic_holder_binding", "multiple"]},)
roundtrip(SQ, "C25", members={"options": "options", "required": "required"})
roundtrip(LQ, "C25", members={k: k for k in ["id", "path", "values", "intent_to_retain"]})
roundtrip(TQ, "C25", members={"type": "authority_type", "values": "values"})
roundtrip(D + "TrustedAuthorityType", "C25", inv=lambda v: canon_enum(v, TATYPES, "Other"))
roundtrip(D + "DcqlCredentialClaimsQueryValue", "C25")
roundtrip(D + "DcqlCredentialClaimsQueryPath", "C25")
roundtrip(CF + "ClaimFormatDesignation", "C20 C25", inv=lambda v: canon_enum(v, FORMATS, "Other"))


def payload_canon(v):
    """A catch-all payload is not the JSON of a known one: an object with the single member alg_values/proof_type_values holding strings."""
    def other(x):
        j = box(x)
        m = map_(jpay(j, "Object"))
        one = lambda k: z3.And(jis(j, "Object"), m == z3.Store(EMPTY_MAP, key(k), at(m, k)), at(m, k) != absent)
        # a JSON string naming the variant also reads as the variant
        return z3.And(z3.Not(one("alg_values")), z3.Not(one("proof_type_values")),
                      z3.Not(z3.And(jis(j, "String"), z3.Or(jstr(j) == S("alg_values"), jstr(j) == S("proof_type_values")))))
    return when(v, "Other", other)


roundtrip(CF + "ClaimFormatPayload", "C19 C26", inv=payload_canon)
roundtrip(RP + "VpTokenItem", "C16 C19")
roundtrip(RP + "VpToken", "C16 C19")
roundtrip(PA + "State", "C16 C19")
roundtrip(PA + "Nonce", "C19")
roundtrip(MV + "VpFormats", "C19")
roundtrip("crate::core::object::UntypedObject", "C18")
