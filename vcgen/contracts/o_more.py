"""C01, C07 Wallet::validate_request; C16 VpToken; C18 accessors of request objects; C19 Nonce."""
from spec import *
from contracts.c_resolve import ARQ, ok_of
from contracts.d_params import *
from contracts.f_response import R, form_of
from contracts.g_url import read_from, url_part
from contracts.b_request import *


@contract("crate::wallet::Wallet::validate_request", "C01 C07", opaque=(ARQ + "validate",))
def wallet_validate(c):
    w, url = c.init
    wm = VSym(E.prog.ty_by_s("crate::core::metadata::WalletMetadata"), uf("env:crate::wallet::Wallet::metadata", w))
    ep = fld(fld(wm, 1), 0)
    oq = VSym(E.prog.ty_by_s("std::option::Option<&str>"), url_part(url, "query"))
    here = z3.And(is_var(oq, "Some"), *[tos(url_part(url, x)) == tos(url_part(ep, x)) for x in ("authority", "path")])
    if not any(e.name.startswith("local:") for p in c.paths for e in p.trace):
        raise Unsupported("does not go through AuthorizationRequest::validate")

    def refused(p):
        return imp(z3.Not(here), z3.And(len(p.trace) == 0, is_var(p.ret, "Err")))
    c.ensure("C07", "a URL without query, or at another endpoint than the wallet's, is refused", refused)

    def judged(p):
        if len(p.trace) != 1:
            return z3.Not(here)
        e = p.trace[0]
        return z3.And(box(e.args[1]) == box(w), read_from(VAdt_ok(e.args[0]), form_of(s_(fld(oq, 0, "Some")))),
                      is_var(p.ret, "Ok") == is_var(e.ret, "Ok"), when(p.ret, "Ok", lambda a: box(a) == ok_of(box(e.ret))))
    c.ensure("C01 C07", "the request in the URL is validated by this wallet, and that verdict is the result", judged)


def VAdt_ok(v):
    ty = E.prog.ty_by_s("std::result::Result<crate::core::authorization_request::AuthorizationRequest, anyhow::Error>")
    return VAdt(ty, ty.vindex("Ok"), [v])


# ---------------------------------------------------------------- accessors of parameters
def de_of(ty, j):
    return uf(f"de<{ty}>", j)


def reads(path, param, k, props="C18"):
    """The function is the typed read of one parameter, as UntypedObject::get is."""
    @contract(path, props)
    def f(c):
        m = map_(fld(c.init[0], "inner")) if path.startswith(ARO) else map_(fld(c.init[0], 0))
        e = at(m, k)
        c.ensure(props, "absent reads as none, present as its parse", lambda p: is_var(p.ret, "None") == (e == absent))
        tf = f"<{param} as std::convert::TryFrom<serde_json::Value>>::try_from"
        c.other = param

        def parsed(p):
            return when(p.ret, "Some", lambda r: same_parse(c, p, tf, e, r))
        c.ensure(props, "the value is parsed from that key", parsed)
    return f


def same_parse(c, p, tf, e, r):
    """r is the parameter type's own reading of the JSON value e."""
    b = find_body(c.prog, tf)
    if b is None:
        raise Lost(tf)
    out = []
    st = p.st.fork()
    for k, s2, w in run_fn(c.ex, tf, [VSym(c.prog.ty_by_s("serde_json::Value"), e)], st, b["key"]):
        if k != "ret":
            continue
        w = models.snapshot(c.ex, s2, w)
        more = z3.And([f for f in s2.pc if not any(f is g or f.eq(g) for g in p.st.pc)] or [T])
        out.append(imp(more, z3.And(is_var(w, "Ok") == is_var(r, "Ok"), when(r, "Ok", lambda a: when(w, "Ok", lambda b_: equal(a, b_))))))
    return z3.And(out)


reads(ARO + "::state", "crate::core::authorization_request::parameters::State", "state")
reads(ARO + "::dcql_query", "crate::core::dcql_query::DcqlQuery", "dcql_query")


# ---------------------------------------------------------------- VpToken
VT = RP + "VpToken::"


@contract([VT + "new", f"<{RP}VpToken as std::default::Default>::default"], "C16")
def vt_new(c):
    c.ensure("C16", "starts without credentials", lambda p: map_(fld(p.ret, 0)) == EMPTY_MAP)


@contract(VT + "get", "C16")
def vt_get(c):
    m = map_(fld(c.init[0], 0))
    e = z3.Select(m, key(s_(c.init[1])))
    c.ensure("C16", "reads the presentations of exactly that credential", lambda p: z3.And(
        is_var(p.ret, "None") == (e == absent), when(p.ret, "Some", lambda v: box(v) == e)))


def into_string(a):
    """The text an `impl Into<String>` argument stands for."""
    return tos(uf("env:std::convert::Into::into<std::string::String>", a))


@contract(VT + "insert", "C16")
def vt_insert(c):
    m = map_(fld(c.init[0], 0))
    c.ensure("C16", "sets exactly that credential's presentations", lambda p: map_(fld(p.fin[0], 0)) == z3.Store(
        m, key(into_string(c.init[1])), box(c.init[2])))


@contract(VT + "with_credential", "C16")
def vt_with(c):
    c.ensure("C16", "holds exactly that credential's presentations", lambda p: map_(fld(p.ret, 0)) == z3.Store(
        EMPTY_MAP, key(into_string(c.init[0])), box(c.init[1])))


@contract([VT + "is_empty"], "C16")
def vt_empty(c):
    c.ensure("C16", "empty exactly without credentials", lambda p: b_(p.ret) == (map_(fld(c.init[0], 0)) == EMPTY_MAP))


# ---------------------------------------------------------------- small accessors
AP = "crate::core::authorization_request::parameters::"


@contract([f"<{AP}Nonce as std::convert::From<std::string::String>>::from", f"<{AP}Nonce as std::convert::From<&str>>::from"], "C19")
def nonce_from(c):
    c.ensure("C19", "holds the given text", lambda p: s_(fld(p.ret, 0)) == s_(c.init[0]))


@contract([f"<{AP}Nonce as std::ops::Deref>::deref", f"<{AP}ClientIdScheme as std::ops::Deref>::deref"], "C19")
def text_deref(c):
    c.ensure("C19", "views its own text", lambda p: s_(p.ret) == s_(fld(c.init[0], 0)))


@contract(f"<{AP}Nonce as std::fmt::Display>::fmt", "C19")
def nonce_display(c):
    c.ensure("C19", "prints its own text", lambda p: z3.And(is_var(p.ret, "Ok"), s_(p.fin[1]) == z3.Concat(s_(c.init[1]), s_(fld(c.init[0], 0)))))


@contract("crate::core::metadata::WalletMetadata::vp_formats_supported_mut", "C26")
def formats_mut(c):
    c.ensure("C26", "views the formats it reports and changes nothing", lambda p: z3.And(
        equal(p.ret, fld(c.init[0], 2)), box(p.fin[0]) == box(c.init[0])))


@contract("crate::core::credential_format::ClaimFormat::designation", "C20")
def designation(c):
    v = c.init[0]
    c.ensure("C20", "a format names its own identifier", lambda p: z3.And(
        [is_var(p.ret, n) == is_var(v, n) for n in ("JwtVcJson", "LdpVc", "MsoMDoc", "DcSdJwt", "Other")]))


@contract([AP + "ClientMetadata::vp_formats"], "C18")
def cm_formats(c):
    e = at(map_(fld(c.init[0], 0)), "vp_formats_supported")
    tf = "<crate::core::metadata::parameters::verifier::VpFormats as std::convert::TryFrom<serde_json::Value>>::try_from"
    c.ensure("C18", "absent is an error, present is its parse", lambda p: z3.And(
        imp(e == absent, is_var(p.ret, "Err")), imp(e != absent, same_parse(c, p, tf, e, p.ret))))


@contract([ARO + "::vp_formats"], "C18")
def aro_formats(c):
    cm = at(map_(fld(c.init[0], "inner")), "client_metadata")
    e = at(map_(jpay(cm, "Object")), "vp_formats_supported")
    tf = "<crate::core::metadata::parameters::verifier::VpFormats as std::convert::TryFrom<serde_json::Value>>::try_from"
    none = z3.Or(cm == absent, z3.Not(jis(cm, "Object")), e == absent)
    c.ensure("C18", "absent is an error, present is its parse", lambda p: z3.And(
        imp(none, is_var(p.ret, "Err")), imp(z3.Not(none), same_parse(c, p, tf, e, p.ret))))
