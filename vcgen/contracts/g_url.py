"""C07 authorization request URLs."""
from spec import *
from contracts.c_resolve import ARQ
from contracts.f_response import form_of

FROM_URL = ARQ + "from_url"


def url_part(u, part):
    return uf("url::Url::" + part, u)


def read_from(ret, m):
    """ret is the reading of the query parameters m (each given once)."""
    cid = at(m, "client_id")
    req, uri = at(m, "request"), at(m, "request_uri")
    ok, u = parse_url(jstr(uri))
    rest = z3.Store(m, key("client_id"), absent)

    def good(a):
        ri = fld(a, "request_indirection")
        by_ref = z3.And(req == absent, uri != absent, ok)
        return z3.And(
            z3.If(cid == absent, is_var(fld(a, "client_id"), "None"), isv(fld(a, "client_id"), "Some", lambda s: s_(s) == jstr(cid))),
            imp(req != absent, isv(ri, "ByValue", lambda s: s_(s) == jstr(req))),
            imp(by_ref, isv(ri, "ByReference", lambda x: box(x) == u)),
            imp(z3.And(req == absent, z3.Not(by_ref)), isv(ri, "Direct", lambda o: map_(o) == rest)))
    return isv(ret, "Ok", good)


@contract(ARQ + "from_query_params", "C07 C04")
def query(c):
    m = form_of(s_(c.init[0]))
    c.ensure("C07 C04", "client_id and request, request_uri or parameters are those of the query", lambda p: read_from(p.ret, m))


@contract(FROM_URL, "C07 C04")
def from_url(c):
    url, ep = c.init
    q = url_part(url, "query")
    oq = VSym(E.prog.ty_by_s("std::option::Option<&str>"), q)
    here = z3.And(is_var(oq, "Some"), *[tos(url_part(url, x)) == tos(url_part(ep, x)) for x in ("authority", "path")])
    c.ensure("C07", "a URL without query, or at another endpoint, is refused", lambda p: imp(z3.Not(here), is_var(p.ret, "Err")))
    c.ensure("C07 C04", "otherwise it is read from its query alone", lambda p: imp(here, read_from(p.ret, form_of(s_(fld(oq, 0, "Some"))))))


def same_request(a, b):
    return z3.And(equal(fld(a, "client_id"), fld(b, "client_id")), equal(fld(a, "request_indirection"), fld(b, "request_indirection")))


@contract(ARQ + "to_url", "C07", budget=90)
def to_url(c):
    r, ep = c.init
    ri = fld(r, "request_indirection")
    c.ensure("C07", "scheme, authority and path are the endpoint's", lambda p: when(p.ret, "Ok", lambda u: z3.And(
        [url_part(u, x) == url_part(ep, x) for x in ("authority", "path", "scheme")])))
    m = map_(fld(ri, 0, "Direct"))
    k = z3.Const("k~direct", U)
    strings = z3.ForAll([k], z3.Or(z3.Select(m, k) == absent, jis(z3.Select(m, k), "String")))
    reserved = z3.And([at(m, x) == absent for x in ("client_id", "request", "request_uri")])
    expressible = imp(is_var(ri, "Direct"), z3.And(strings, reserved))
    c.ensure("C07", "encoding succeeds", lambda p: imp(expressible, is_var(p.ret, "Ok")))
    for v in ("ByValue", "ByReference", "Direct"):
        need = z3.And(is_var(ri, v), expressible) if v == "Direct" else is_var(ri, v)
        c.then("C07", f"the URL reads back as the same request ({v})", [FROM_URL],
               lambda p, need=need: imp(need, isv(p.ret, "Ok", lambda a: same_request(a, r))), ok_first=True, conv=lambda v: [v, VRef(ep)], need=need)
