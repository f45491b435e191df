"""C26 wallet metadata and capability queries."""
from models import tyname, url_str
from spec import *
from contracts.a_object import length, elem
from contracts.d_params import *

MD = "crate::core::metadata::"
WM = MD + "WalletMetadata::"
UO = "crate::core::object::UntypedObject"
END, FMT = "authorization_endpoint", "vp_formats_supported"


def fmt_ty():
    return strip(E.prog.ty_by_s(MW + "VpFormatsSupported")).field_ty(0, 0)


def fmt_json(f):
    return uf(f"ser<{tyname(fmt_ty())}>", box(fld(f, 0)))


def fmt_read(e):
    return uf(f"de<{tyname(fmt_ty())}>", e)


def shows(m0, m, endpoint, formats):
    """m is m0 with the endpoint and formats put in."""
    ej = at(m, END)
    k = z3.Const("k~wm", U)
    return [("the endpoint", z3.And(jhas_str(m, END), jstr(ej) == url_str(box(fld(endpoint, 0))))),
            ("the formats", at(m, FMT) == fmt_json(formats)),
            ("every other parameter as given", z3.ForAll([k], imp(z3.And(k != key(END), k != key(FMT)), z3.Select(m, k) == z3.Select(m0, k))))]


@contract(WM + "new", "C26")
def new(c):
    ep, fm, other = c.init
    m0 = z3.If(is_var(other, "Some"), map_(fld(other, 0, "Some")), EMPTY_MAP)
    c.ensure("C26", "reports the given endpoint and formats", lambda p: z3.And(
        box(fld(fld(p.ret, 1), 0)) == box(fld(ep, 0)), box(fld(fld(p.ret, 2), 0)) == box(fld(fm, 0))))
    for i in range(3):
        nm = ["the endpoint", "the formats", "every other parameter as given"][i]
        c.ensure("C26", "its parameters show " + nm, lambda p, i=i: shows(m0, map_(fld(p.ret, 0)), ep, fm)[i][1])


@contract(f"{MD}<impl std::convert::From<{MD}WalletMetadata> for {UO}>::from", "C26")
def into(c):
    w = c.init[0]
    for i in range(3):
        nm = ["the endpoint", "the formats", "every other parameter as given"][i]
        c.ensure("C26", "its serialised form shows " + nm, lambda p, i=i: shows(map_(fld(w, 0)), map_(p.ret), fld(w, 1), fld(w, 2))[i][1])


@contract(f"<{MD}WalletMetadata as std::convert::TryFrom<{UO}>>::try_from", "C26")
def parse(c):
    m = map_(c.init[0])
    e, f = at(m, END), at(m, FMT)
    r = fmt_read(f)
    c.ensure("C26", "parses exactly when endpoint and formats are present and valid", lambda p: is_var(p.ret, "Ok") == z3.And(
        e != absent, K_url.ok(e), f != absent, disc(r) == 0))
    c.ensure("C26", "reports the parameters' endpoint and formats and keeps all parameters", lambda p: when(p.ret, "Ok", lambda w: z3.And(
        map_(fld(w, 0)) == m, K_url.val(fld(w, 1), e), box(fld(fld(w, 2), 0)) == fld_term("std::result::Result", "Ok", 0, r))))


@contract(WM + "authorization_endpoint", "C26")
def get_end(c):
    c.ensure("C26", "reports its endpoint", lambda p: box(p.ret) == box(fld(c.init[0], 1)))


@contract(WM + "vp_formats_supported", "C26")
def get_fmt(c):
    c.ensure("C26", "reports its formats", lambda p: box(p.ret) == box(fld(c.init[0], 2)))


@contract(f"<{MD}WalletMetadata as std::ops::Deref>::deref", "C26")
def get_inner(c):
    c.ensure("C26", "shows its parameters", lambda p: map_(p.ret) == map_(fld(c.init[0], 0)))


def appended(m0, m1, k, n_old, old, n_new, new):
    """m1 is m0 with array k holding the old and then the new strings."""
    e = at(m1, k)
    xs = box(jpay(e, "Array"))
    i = z3.Int("i~app")
    x = sat_(xs, i)
    return z3.And(m1 == z3.Store(m0, key(k), e), e != absent, jis(e, "Array"), slen_term(xs) == n_old + n_new,
                  z3.ForAll([i], imp(z3.And(0 <= i, i < n_old), z3.And(jis(x, "String"), jstr(x) == old(i)))),
                  z3.ForAll([i], imp(z3.And(n_old <= i, i < n_old + n_new), z3.And(jis(x, "String"), jstr(x) == new(i - n_old)))))


def adder(name, k, n_def, default, new_of):
    @contract(WM + name, "C26")
    def f(c):
        w = c.init[0]
        m = map_(fld(w, 0))
        e = at(m, k)
        xs = box(jpay(e, "Array"))
        n_old = z3.If(e == absent, z3.IntVal(n_def), slen_term(xs))
        old = lambda i: z3.If(e == absent, S(default), jstr(sat_(xs, i)))
        valid = z3.Or(e == absent, all_kind(e, "String"))
        n_new, new = new_of(c)
        c.ensure("C26", "fails exactly on an unreadable list", lambda p: is_var(p.ret, "Ok") == valid)
        c.ensure("C26", "appends to the existing or default list", lambda p: imp(
            is_var(p.ret, "Ok"), appended(m, map_(fld(p.fin[0], 0)), k, n_old, old, n_new, new)))
        c.ensure("C26", "changes nothing else", lambda p: z3.And(
            box(fld(p.fin[0], 1)) == box(fld(w, 1)), box(fld(p.fin[0], 2)) == box(fld(w, 2)),
            imp(is_var(p.ret, "Err"), map_(fld(p.fin[0], 0)) == m)))


adder("add_request_object_signing_alg_values_supported", "request_object_signing_alg_values_supported", 0, "",
      lambda c: (z3.IntVal(1), lambda i: tos(uf("display<ssi_jwk::Algorithm>", c.init[1]))))
adder("add_client_id_prefixes_supported", "client_id_prefixes_supported", 1, "pre-registered",
      lambda c: (length(c.init[1]), lambda i: s_(fld(VSym(E.prog.ty_by_s(PA + "ClientIdScheme"), elem(c.init[1], i)), 0))))


@contract(WM + "openid4vp_scheme_static", "C26 C29")
def static(c):
    def post(p):
        m = map_(fld(p.ret, 0))
        one = lambda k, v: z3.And(at(m, k) != absent, jis(at(m, k), "Array"), slen_term(box(jpay(at(m, k), "Array"))) == 1,
                                  jis(sat_(box(jpay(at(m, k), "Array")), 0), "String"), jstr(sat_(box(jpay(at(m, k), "Array")), 0)) == v)
        return z3.And(box(fld(fld(p.ret, 1), 0)) == parse_url(S("openid4vp:"))[1], one("response_types_supported", S("vp_token")),
                      one("request_object_signing_alg_values_supported", tos(uf("display<ssi_jwk::Algorithm>", z3.Const("mk~ssi_jwk::Algorithm~ES256", U)))))
    c.ensure("C26", "the static metadata names its endpoint, vp_token and ES256", post)


# ---------------------------------------------------------------- support queries
def payload(m, d):
    return VSym(E.prog.ty_by_s(CF + "ClaimFormatPayload"), z3.Select(m, box(d)))


@contract(MV + "VpFormats::supports_security_method", "C26")
def supports(c):
    m = map_(fld(c.init[0], 0))
    t = z3.Select(m, box(c.init[1]))
    pl = payload(m, c.init[1])
    k = z3.Int("k~sup")

    def listed(v):
        xs = box(fld(pl, 0, v))
        return z3.Exists([k], z3.And(0 <= k, k < slen_term(xs), sat_(xs, k) == box(c.init[2])))
    want = z3.And(t != absent, z3.Or(z3.And(is_var(pl, "AlgValues"), listed("AlgValues")), z3.And(is_var(pl, "ProofTypeValues"), listed("ProofTypeValues"))))
    c.ensure("C26", "yes only for a listed method of a listed format", lambda p: imp(plain(p.ret).e, want))
    c.ensure("C26", "yes for every listed method of a listed format", lambda p: imp(want, plain(p.ret).e))


@contract(MW + "VpFormatsSupported::is_claim_format_supported", "C26")
def is_supported(c):
    m = map_(fld(c.init[0], 0))
    c.ensure("C26", "yes exactly for a listed format", lambda p: plain(p.ret).e == (z3.Select(m, box(c.init[1])) != absent))


def add_to(name, variant):
    @contract(CF + "ClaimFormatPayload::" + name, "C26")
    def f(c):
        v, s = c.init
        i = z3.Int("i~add")

        def post(p):
            r = p.fin[0]
            xs, ys = box(fld(v, 0, variant)), box(fld(r, 0, variant))
            return z3.And(imp(z3.Not(is_var(v, variant)), box(r) == box(v)), imp(is_var(v, variant), z3.And(
                is_var(r, variant), slen_term(ys) == slen_term(xs) + 1, tos(sat_(ys, slen_term(xs))) == s_(s),
                z3.ForAll([i], imp(z3.And(0 <= i, i < slen_term(xs)), sat_(ys, i) == sat_(xs, i))))))
        c.ensure("C26", "appends to its list, otherwise changes nothing", post)


add_to("add_alg", "AlgValues")
add_to("add_proof_type", "ProofTypeValues")
