"""C03 typ header, C04 client ids, C05 resolution, and AuthorizationRequest::validate."""
from models import b64_ok
from spec import *
from contracts.b_request import *

ARQ = AR + "AuthorizationRequest::"
OK, RES = "Ok", "std::result::Result"


def ok_of(t):
    return fld_term(RES, OK, 0, t)


def jws_parts(e):
    """(ok, header, payload, signature) of splitting a compact JWS."""
    t = uf("split_jws", VStr(e))
    tup = ok_of(t)
    return disc(t) == 0, [tos(fld_term("tuple3", "0", i, tup)) for i in range(3)]


def json_text(e):
    """(ok, JSON term) of parsing text as JSON."""
    t = uf("json_parse", VStr(e))
    return disc(t) == 0, ok_of(t)


def jwt_header(e):
    """(decodable, header map) of a JWT's protected header."""
    ok, (h, _, _) = jws_parts(e)
    ok2, raw = b64_ok("URL_SAFE_NO_PAD", h)
    ok3, j = json_text(raw)
    return z3.And(ok, ok2, ok3, jis(j, "Object")), map_(jpay(j, "Object"))


def typ_ok(e, exempt):
    ok, m = jwt_header(e)
    return z3.And(ok, z3.Or(exempt, z3.And(jhas_str(m, "typ"), jstr(at(m, "typ")) == S("oauth-authz-req+jwt"))))


def typ_post(args, r):
    return [("accepts exactly a decodable header of the right typ", is_var(r, "Ok") == typ_ok(s_(args[0]), b_(args[1])))]


@contract(AR + "validate_request_object_typ", "C03")
def typ_c(c):
    c.ensure("C03", "summary: accepts exactly a decodable header of the right typ", lambda p: typ_post(c.init, p.ret)[0][1])


summary(AR + "validate_request_object_typ")(typ_post)


def jwt_claims(e):
    """(ok, untyped object value) of decoding a JWT without verification."""
    t = uf("jwt_decode_unverified<crate::core::object::UntypedObject>", VStr(e))
    return disc(t) == 0, VSym(E.prog.ty_by_s("crate::core::object::UntypedObject"), ok_of(t))


def object_is(aro, m):
    """aro is the request object of parameter map m (C06's reading of it)."""
    fs = [map_(fld(aro, "inner")) == m, client_id_is(fld(aro, "client_id"), m), scheme_is(fld(aro, "client_id_scheme"), m)]
    return z3.And(fs)


def http_parts(t):
    return [fld_term("http::Request", "0", i, t) for i in range(4)]


def get_request_ok(ev, client, url):
    """The event is one HTTP GET of that URL with an empty body and the version preference header."""
    if not ev.name.endswith("AsyncHttpClient::execute"):
        return F
    m, u, h, b = http_parts(box(ev.args[1]))
    return z3.And(box(ev.args[0]) == box(client), m == z3.Const("http~GET", U), u == box_str(url_str(box(url))),
                  z3.Or(slen(b) == 0, b == box_str(S(""))), headers_ok(tom(h), {}))


def headers_ok(h, extra):
    """The version preference header and those given are set."""
    want = dict({"prefer": "OID4VP-1.0.0"}, **extra)
    return z3.And([z3.Select(h, key(k)) == box_str(S(v)) for k, v in want.items()])


def exempt_of(areq):
    """The outer client_id starts with 'redirect_uri:'."""
    return isv(fld(areq, "client_id"), "Some", lambda s: z3.PrefixOf(S("redirect_uri:"), s_(s)))


def outcome_of_jwt(e, exempt, ret):
    """C03+C05: what resolving must return once JWT e was delivered."""
    okd, obj = jwt_claims(e)
    m = map_(obj)
    good = z3.And(typ_ok(e, exempt), okd, well_formed(m))
    return z3.And(is_var(ret, "Ok") == good, when(ret, "Ok", lambda r: z3.And(
        object_is(fld(r, 0), m), isv(fld(r, 1), "Some", lambda s: s_(s) == e))))


@contract(ARQ + "resolve_request", "C03 C04 C05", budget=90, uses=True)
def resolve_c(c):
    areq, client = c.init
    ri = fld(areq, "request_indirection")
    ex = exempt_of(areq)
    outer = fld(areq, "client_id")
    by_value = is_var(ri, "ByValue")
    by_ref = is_var(ri, "ByReference")
    direct = is_var(ri, "Direct")
    jwt = s_(fld(ri, "request", "ByValue"))
    url = fld(ri, "request_uri", "ByReference")

    def value(p):
        return imp(by_value, z3.And(len(p.trace) == 0, outcome_of_jwt(jwt, ex, p.ret)))
    c.ensure("C05 C03", "by value: the given JWT, no network, typ checked", value)

    def one_get(p):
        if len(p.trace) > 1:
            return z3.Not(by_ref)
        if not p.trace:
            # only an unbuildable HTTP request
            return imp(by_ref, is_var(p.ret, "Err"))
        return imp(by_ref, get_request_ok(p.trace[0], client, url))
    c.ensure("C05", "by reference: one GET of the request_uri", one_get)

    def ref(p):
        if len(p.trace) != 1:
            return T
        rt = box(p.trace[0].ret)
        resp = ok_of(rt)
        body = tos(uf("http::Response::<T>::into_body<std::vec::Vec<u8>>", resp))
        succ = b_(VRaw(uf("http::StatusCode::is_success", uf("http::Response::<T>::status<std::vec::Vec<u8>>", resp))))
        utf8 = fn("is_utf8", STR, BOOL)(body)
        good = z3.And(disc(rt) == 0, succ, utf8)
        return imp(by_ref, z3.And(imp(z3.Not(good), is_var(p.ret, "Err")), imp(good, outcome_of_jwt(body, ex, p.ret))))
    c.ensure("C05 C03", "by reference: exactly the returned body, failures are errors", ref)

    def dir_(p):
        m0 = map_(fld(ri, 0, "Direct"))
        m = z3.If(is_var(outer, "Some"), z3.Store(m0, key("client_id"), box(json_string(s_(fld(outer, 0, "Some"))))), m0)
        return imp(direct, z3.And(len(p.trace) == 0, is_var(p.ret, "Ok") == well_formed(m), when(p.ret, "Ok", lambda r: z3.And(
            object_is(fld(r, 0), m), is_var(fld(r, 1), "None")))))
    c.ensure("C04 C05", "direct: the parameters with the outer client_id, no JWT, no network", dir_)


# ---------------------------------------------------------------- validate
def validated(c, p):
    """Trace shape: optional HTTP GET first, then the verification routine."""
    return [e for e in p.trace if e.name.startswith(RV)], [e for e in p.trace if not e.name.startswith(RV)]


@contract(ARQ + "validate", "C01 C02 C03 C04 C05", budget=120, uses=True)
def validate_c(c):
    areq, wallet = c.init
    outer = fld(areq, "client_id")
    ri = fld(areq, "request_indirection")

    def one_routine(p):
        rv, other = validated(c, p)
        if len(rv) != 1 or len(other) > 1 or (other and p.trace[0] is not other[0]):
            return z3.Not(is_var(p.ret, "Ok"))
        e = rv[0]
        aro = plain(e.args[2] if e.name.endswith("::other") else e.args[1])
        jwt = e.args[-1]
        return when(p.ret, "Ok", lambda a: z3.And(
            routine_called(OnlyTrace([e]), wallet, aro, jwt), is_var(e.ret, "Ok"), box(aro) == box(a),
            gate(wallet_map(wallet), aro)))
    c.ensure("C01 C02", "accepted only after the one routine of its prefix accepted the servable request", one_routine)

    def same_ids(p):
        return when(p.ret, "Ok", lambda a: z3.And(
            imp(z3.And(is_var(outer, "Some"), at(map_(fld(a, "inner")), "client_id") != absent),
                isv(outer, "Some", lambda s: jstr(at(map_(fld(a, "inner")), "client_id")) == s_(s)))))
    c.ensure("C04", "outer and inner client_id agree in an accepted request", same_ids)

    def honest(p):
        """The routine judges the object decoded from the delivered JWT, together with that JWT."""
        rv, other = validated(c, p)
        if len(rv) != 1:
            return T
        e = rv[0]
        aro = plain(e.args[2] if e.name.endswith("::other") else e.args[1])
        jwt = e.args[-1]
        direct = is_var(ri, "Direct")
        dj = when(jwt, "Some", lambda s: (lambda d: z3.And(d[0], map_(fld(aro, "inner")) == map_(d[1]), typ_ok(s_(s), exempt_of(areq))))(jwt_claims(s_(s))))
        return z3.And(is_var(jwt, "None") == direct, dj)
    c.ensure("C01 C03 C05", "the routine sees the decoded object and the JWT it came from", honest)

    def passed_on(p):
        """A request that resolves, agrees on its client_id and is servable reaches the routine, whose verdict is final."""
        rv, other = validated(c, p)
        if len(rv) == 1:
            e = rv[0]
            cid = at(map_(fld(plain(e.args[2] if e.name.endswith("::other") else e.args[1]), "inner")), "client_id")
            agree = z3.Or(is_var(outer, "None"), cid == absent, isv(outer, "Some", lambda s: s_(s) == jstr(cid)))
            return imp(agree, is_var(p.ret, "Ok") == is_var(e.ret, "Ok"))
        seen = apps(p.st.pc, "uf~summary~" + TRY)
        A = VSym(E.prog.ty_by_s(ARO), ok_of(seen[0]) if len(seen) == 1 else z3.Const("object~delivered", U))
        by_value, by_ref = is_var(ri, "ByValue"), is_var(ri, "ByReference")
        if other:
            ok, body = http_reply(other[0])
            here = z3.And(by_ref, ok)
        else:
            here, body = by_value, s_(fld(ri, "request", "ByValue"))
        okc, claims = jwt_claims(body)
        direct = is_var(ri, "Direct")
        m0 = map_(fld(ri, 0, "Direct"))
        md = z3.If(is_var(outer, "Some"), z3.Store(m0, key("client_id"), box(json_string(s_(fld(outer, 0, "Some"))))), m0)
        good_jwt = z3.And(here, okc, typ_ok(body, exempt_of(areq)), well_formed(map_(claims)), object_is(A, map_(claims)))
        good_dir = z3.And(direct, well_formed(md), object_is(A, md))
        cid = at(map_(fld(A, "inner")), "client_id")
        agree = z3.Or(is_var(outer, "None"), cid == absent, isv(outer, "Some", lambda s: s_(s) == jstr(cid)))
        origin = isv(fld(A, "client_id_scheme"), "Some", lambda x: s_(fld(x, 0)) == S("origin"))
        return z3.Not(z3.And(z3.Or(good_jwt, F if other else good_dir), agree, z3.Not(origin), gate(wallet_map(wallet), A)))
    c.ensure("C01 C02", "a servable, consistent request is passed on and the routine's verdict is final", passed_on)


def apps(fs, name):
    """Applications of a function symbol in formulas."""
    out, done, todo = {}, set(), list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in done:
            continue
        done.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app(t):
            if t.decl().name() == name:
                out[t.get_id()] = t
            todo += t.children()
    return list(out.values())


def http_reply(ev):
    """(a 2xx reply with a text body, that body) of an HTTP call."""
    rt = box(ev.ret)
    resp = ok_of(rt)
    body = tos(uf("http::Response::<T>::into_body<std::vec::Vec<u8>>", resp))
    succ = b_(VRaw(uf("http::StatusCode::is_success", uf("http::Response::<T>::status<std::vec::Vec<u8>>", resp))))
    return z3.And(disc(rt) == 0, succ, fn("is_utf8", STR, BOOL)(body)), body


class OnlyTrace:
    def __init__(self, t):
        self.trace = t
