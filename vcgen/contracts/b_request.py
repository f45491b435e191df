"""C06 request objects; C04 accessors; C01/C02 dispatch and capability gate."""
from models import before_first
from spec import *
from contracts.a_object import length, elem, vec

AR = "crate::core::authorization_request::"
ARO = AR + "AuthorizationRequestObject"
TRY = f"<{ARO} as std::convert::TryFrom<crate::core::object::UntypedObject>>::try_from"
MODES = {"DirectPost": "direct_post", "DirectPostJwt": "direct_post.jwt", "DcApi": "dc_api", "DcApiJwt": "dc_api.jwt"}
TYPES = {"VpToken": "vp_token", "VpTokenIdToken": "vp_token id_token"}


def str_or(m, k, d):
    """Value of an optional string parameter with a default."""
    return z3.If(at(m, k) == absent, S(d), jstr(at(m, k)))


def opt_str_ok(m, k):
    return z3.Or(at(m, k) == absent, jis(at(m, k), "String"))


def well_formed(m):
    """C06: the parameter objects that are request objects."""
    mode = str_or(m, "response_mode", "direct_post")
    ok, _ = parse_url(jstr(at(m, "response_uri")))
    direct = z3.Or(mode == S("direct_post"), mode == S("direct_post.jwt"))
    dc = z3.Or(mode == S("dc_api"), mode == S("dc_api.jwt"))
    return z3.And(
        jhas_str(m, "nonce"), jhas_str(m, "response_type"), opt_str_ok(m, "client_id"), opt_str_ok(m, "response_mode"),
        at(m, "redirect_uri") == absent,
        z3.Or(z3.And(direct, jhas_str(m, "response_uri"), ok), z3.And(dc, at(m, "response_uri") == absent)))


def is_mode(v, table, s):
    """v is the variant the string s names."""
    cs = [z3.If(s == S(t), is_var(v, n), T) for n, t in table.items()]
    return z3.And(cs)


def is_rtype(v, s):
    known = z3.Or([s == S(t) for t in TYPES.values()])
    return z3.And(is_mode(v, TYPES, s), z3.Implies(z3.Not(known), isv(v, "Unsupported", lambda x: s_(x) == s)))


def client_id_is(v, m):
    """Option<ClientId> of the map's own client_id."""
    e = at(m, "client_id")
    return z3.If(e == absent, is_var(v, "None"), isv(v, "Some", lambda c: s_(fld(c, 0)) == jstr(e)))


def scheme_is(v, m):
    e = at(m, "client_id")
    s = jstr(e)
    pre = z3.And(e != absent, z3.Contains(s, S(":")))
    return z3.If(pre, isv(v, "Some", lambda c: s_(fld(c, 0)) == before_first(s, S(":"))), is_var(v, "None"))


def aro_post(args, r):
    m = map_(args[0])
    W = well_formed(m)
    out = [("exactly the well-formed objects are accepted", is_var(r, "Ok") == W)]

    def ok(name, f):
        out.append((name, when(r, "Ok", f)))
    ok("parameters are kept unchanged", lambda a: map_(fld(a, "inner")) == m)
    ok("reported client_id is the parameter", lambda a: client_id_is(fld(a, "client_id"), m))
    ok("reported prefix is the text before the first colon", lambda a: scheme_is(fld(a, "client_id_scheme"), m))
    ok("reported mode is the parameter's or the default", lambda a: is_mode(fld(a, "response_mode"), MODES, str_or(m, "response_mode", "direct_post")))
    ok("reported type is the parameter", lambda a: is_rtype(fld(a, "response_type"), jstr(at(m, "response_type"))))
    ok("reported nonce is the parameter", lambda a: s_(fld(fld(a, "nonce"), 0)) == jstr(at(m, "nonce")))
    _, u = parse_url(jstr(at(m, "response_uri")))
    ok("return address is the response_uri", lambda a: imp(at(m, "response_uri") != absent, box(fld(a, "return_uri")) == u))
    return out


@contract(TRY, "C06 C04 C12 C11", budget=90)
def aro_try(c):
    for p in c.paths:
        pass
    names = [n for n, _ in aro_post(c.init, c.paths[0].ret)] if c.paths else []
    for i, n in enumerate(names):
        props = "C06 C04" if "client_id" in n or "prefix" in n else "C06"
        c.ensure(props, "summary: " + n, lambda p, i=i: aro_post(c.init, p.ret)[i][1])


summary(TRY)(aro_post)


@contract(AR + "<impl std::convert::From<" + ARO + "> for crate::core::object::UntypedObject>::from", "C06")
def aro_back(c):
    c.ensure("C06", "converting back gives the parameters", lambda p: map_(p.ret) == map_(fld(c.init[0], "inner")))


def getter(name, field, props="C06", owned=False):
    @contract(f"{ARO}::{name}", props)
    def f(c):
        def post(p):
            v, r = fld(c.init[0], field), plain(p.ret)
            return same_opt(r, v)
        c.ensure(props, f"{name} reports its field", post)
    return f


def same_opt(r, v):
    """Option<&T> of an Option<T>, or a plain value."""
    r, v = plain(r), plain(v)
    if isinstance(r, VAdt) and r.ty.path == "std::option::Option":
        if r.ty.vname(r.v) == "None":
            return is_var(v, "None")
        return isv(v, "Some", lambda x: box(r.fs[0]) == box(x))
    return box(r) == box(v)


for nm, props in [("client_id", "C04 C06"), ("client_id_scheme", "C04 C01"), ("response_mode", "C06"), ("response_type", "C06"),
                  ("return_uri", "C06 C17"), ("nonce", "C06")]:
    getter(nm, nm, props)


@contract(ARO + "::is_id_token_requested", "C06")
def idtok(c):
    t = fld(c.init[0], "response_type")
    c.ensure("C06", "id token requested", lambda p: z3.And(
        is_var(t, "Unsupported") == is_var(p.ret, "None"),
        when(p.ret, "Some", lambda b: b_(b) == is_var(t, "VpTokenIdToken"))))


@contract([f"<{ARO} as std::ops::Deref>::deref", f"<{ARO} as std::ops::DerefMut>::deref_mut"], "C06 C18")
def aro_deref(c):
    c.ensure("C06 C18", "the parameter view is the object's own parameters",
             lambda p: map_(p.ret) == map_(fld(c.init[0], "inner")))


# ---------------------------------------------------------------- C02 capability gate
def json_strs(e, nm):
    """e is a JSON array of strings -> (ok, member(s), payload)."""
    a = box(jpay(e, "Array"))
    k = z3.Int("k~" + nm)
    ok = z3.And(jis(e, "Array"), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < slen_term(a)), jis(sat_(a, k), "String"))))

    def member(s):
        j = z3.Int("m~" + nm)
        return z3.Exists([j], z3.And(j >= 0, j < slen_term(a), jstr(sat_(a, j)) == s))
    return ok, member, a


def record_field(e, k):
    """The only field of a one-field record: by name in an object, or by position (serde reads records from arrays too)."""
    a = box(jpay(e, "Array"))
    return z3.If(jis(e, "Object"), at(map_(jpay(e, "Object")), k),
                 z3.If(z3.And(jis(e, "Array"), slen_term(a) == 1), sat_(a, 0), absent))


def gate(wm, aro):
    """C02's acceptance condition over the wallet's metadata map and the request object."""
    m = map_(fld(aro, "inner"))
    e = at(wm, "client_id_prefixes_supported")
    pok, pmem, _ = json_strs(e, "pre")
    sch = fld(aro, "client_id_scheme")

    def supported(x):
        s = s_(fld(x, 0))
        return z3.If(e == absent, s == S("pre-registered"), z3.And(pok, pmem(s)))
    prefix_ok = when(sch, "Some", supported)
    cm = at(m, "client_metadata")
    cm_ok = z3.Or(cm == absent, jis(cm, "Object"))
    cmm = map_(jpay(cm, "Object"))
    cat = lambda k: let(z3.If(cm == absent, absent, at(cmm, k)))
    mode = jstr(at(m, "response_mode"))
    mode_ok = z3.And(jhas_str(m, "response_mode"), z3.Or([mode == S(x) for x in MODES.values()]))
    jarm = z3.Or(mode == S("direct_post.jwt"), mode == S("dc_api.jwt"))
    # the JWK set
    jwks = cat("jwks")
    keys = let(record_field(jwks, "keys"))
    ks = box(jpay(keys, "Array"))
    i = z3.Int("i~keys")
    jwks_ok = z3.And(jwks != absent, z3.Or(z3.And(jis(jwks, "Array"), slen_term(box(jpay(jwks, "Array"))) == 1), z3.And(jis(jwks, "Object"), keys != absent)), jis(keys, "Array"), z3.ForAll(
        [i], z3.Implies(z3.And(0 <= i, i < slen_term(ks)), jis(sat_(ks, i), "Object"))))

    def enc_alg(k, more):
        km = map_(jpay(sat_(ks, k), "Object"))
        return z3.And(0 <= k, k < slen_term(ks), jhas_str(km, "use"), jstr(at(km, "use")) == S("enc"), jhas_str(km, "alg"),
                      more(jstr(at(km, "alg"))))
    wa = at(wm, "authorization_encryption_alg_values_supported")
    waok, wamem, _ = json_strs(wa, "wa")
    n = z3.Int("n~keys")
    some_key = z3.Exists([n], enc_alg(n, lambda a: T))
    some_alg = z3.Exists([n], enc_alg(n, wamem))
    we = at(wm, "authorization_encryption_enc_values_supported")
    weok, wemem, _ = json_strs(we, "we")
    ev = cat("encrypted_response_enc_values_supported")
    evok, _, eva = json_strs(ev, "ev")
    q = z3.Int("q~enc")
    some_enc = z3.Exists([q], z3.And(0 <= q, q < slen_term(eva), wemem(jstr(sat_(eva, q)))))
    enc_ok = z3.And(z3.Or(ev == absent, evok),
                    z3.Or(we == absent, z3.And(weok, z3.If(ev == absent, wemem(S("A128GCM")), some_enc))))
    crypt = z3.And(jwks_ok, some_key, z3.Or(wa == absent, z3.And(waok, some_alg)), enc_ok)
    return z3.And(prefix_ok, cm_ok, mode_ok, z3.Implies(jarm, crypt))


def wallet_map(w):
    """Parameter map of the wallet's metadata."""
    wm = VSym(E.prog.ty_by_s("crate::core::metadata::WalletMetadata"), uf("env:crate::wallet::Wallet::metadata", w))
    return map_(fld(wm, 0))


V = AR + "verification::"


@contract(V + "validate_request_against_metadata", "C02", budget=60)
def gate_c(c):
    g = gate(wallet_map(c.init[0]), c.init[1])
    c.ensure("C02", "only servable requests pass the gate", lambda p: imp(is_var(p.ret, "Ok"), g))
    c.ensure("C02", "every servable request passes the gate", lambda p: imp(is_var(p.ret, "Err"), z3.Not(g)))


def gate_post(args, r):
    return [("accepts exactly the servable requests", is_var(r, "Ok") == gate(wallet_map(args[0]), args[1]))]


summary(V + "validate_request_against_metadata")(gate_post)

PREFIXES = {"decentralized_identifier": "decentralized_identifier", "openid_federation": "openid_federation",
            "redirect_uri": "redirect_uri", "verifier_attestation": "verifier_attestation", "x509_san_dns": "x509_san_dns",
            "x509_hash": "x509_hash"}
RV = V + "RequestVerifier::"


def routine_called(p, w, aro, jwt):
    """C01: (formula: the trace of this path is the one call the prefix selects, or no call for 'origin')."""
    sch = fld(aro, "client_id_scheme")
    ev = [e for e in p.trace]
    if len(ev) != 1:
        return F
    e = ev[0]
    name = e.name.split("::")[-1]
    if not e.name.startswith(RV):
        return F
    a = list(e.args)
    if name == "other":
        ok_args = z3.And(box(a[0]) == box(w), box(a[2]) == box(aro), box(a[3]) == box(jwt))
    else:
        ok_args = z3.And(box(a[0]) == box(w), box(a[1]) == box(aro), box(a[2]) == box(jwt))
    if name == "preregistered":
        sel = is_var(sch, "None")
    elif name == "other":
        sel = isv(sch, "Some", lambda x: z3.And(s_(a[1]) == s_(fld(x, 0)), z3.And(
            [s_(fld(x, 0)) != S(q) for q in list(PREFIXES) + ["origin"]])))
    elif name in PREFIXES.values():
        sel = isv(sch, "Some", lambda x: z3.Or([s_(fld(x, 0)) == S(q) for q, n in PREFIXES.items() if n == name]))
    else:
        sel = F
    return z3.And(ok_args, sel)


@contract(V + "verify_request", "C01 C02", budget=60, uses=True)
def verify_c(c):
    w, aro, jwt = c.init
    g = gate(wallet_map(w), aro)
    sch = fld(aro, "client_id_scheme")
    origin = isv(sch, "Some", lambda x: s_(fld(x, 0)) == S("origin"))
    c.ensure("C02", "nothing is asked for a request the wallet cannot serve", lambda p: imp(z3.Not(g), z3.And(len(p.trace) == 0, is_var(p.ret, "Err"))))
    c.ensure("C01", "the reserved prefix 'origin' is rejected without asking", lambda p: imp(origin, z3.And(len(p.trace) == 0, is_var(p.ret, "Err"))))
    c.ensure("C01 C02", "exactly the routine of the prefix is asked, about this request and JWT",
             lambda p: imp(z3.And(g, z3.Not(origin)), routine_called(p, w, aro, jwt)))
    c.ensure("C01", "the verdict is the routine's",
             lambda p: imp(z3.And(g, z3.Not(origin)), is_var(p.ret, "Ok") == is_var(p.trace[0].ret, "Ok") if p.trace else F))


for _n in list(PREFIXES.values()) + ["preregistered", "other"]:
    @contract(RV + _n, "C01")
    def default_routine(c):
        c.ensure("C01", "an unimplemented routine rejects", lambda p: is_var(p.ret, "Err"))
