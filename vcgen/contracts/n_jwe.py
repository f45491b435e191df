"""C23 encrypted responses (src/core/jwe.rs; josekit's interface is an assumed contract, see serde_m.py)."""
from models import J, tyname
from spec import *
from contracts.d_params import *

JW = "crate::core::jwe::"
B = JW + "JweBuilder"
ENCRYPTER = "josekit::jwe::alg::ecdh_es::EcdhEsJweAlgorithm::encrypter_from_jwk<p256::NistP256>"
ENCODE = "josekit::jwt::encode_with_encrypter<p256::NistP256>"
FIELDS = ["payload", "recipient_key", "alg", "enc", "kid"]


def jo(e):
    return box(J(E.prog, "String", VStr(e)))


def okof(t):
    return fld_term("std::result::Result", "Ok", 0, t)


def others(p, c, name):
    return z3.And([T] + [equal(fld(p, f), fld(c.init[0], f)) for f in FIELDS if f != name])


def setter(name, post):
    @contract(f"{B}::{name}", "C23")
    def f(c):
        c.ensure("C23", f"sets {name} and nothing else", lambda p: z3.And(isv(fld(p.ret, name), "Some", lambda x: post(c, x)), others(p.ret, c, name)))


setter("payload", lambda c, x: equal(x, c.init[1]))
setter("recipient_key", lambda c, x: equal(x, c.init[1]))


def text_setter(name):
    # the generic setters, at String
    @contract(f"{B}::{name}", "C23")
    def f(c):
        c.ensure("C23", f"sets {name} and nothing else", lambda p: z3.And(isv(fld(p.ret, name), "Some", lambda x: s_(x) == s_(c.init[1])), others(p.ret, c, name)))
    f.args = lambda c, ex, b, st: [sym_args(ex, b, st)[0], VStr(z3.Const("text", STR))]


for _n in ("alg", "enc", "kid"):
    text_setter(_n)


@contract(B + "::new", "C23")
def new(c):
    c.ensure("C23", "starts with nothing set", lambda p: z3.And([is_var(fld(p.ret, f), "None") for f in FIELDS]))


@contract(B + "::recipient_key_json", "C23")
def key_json(c):
    j = box(c.init[1])
    ok = z3.And(jis(j, "Object"), fn("jose_jwk_ok", U, BOOL)(box_map(map_(jpay(j, "Object")))))
    c.ensure("C23", "accepts exactly what josekit reads as a key", lambda p: is_var(p.ret, "Ok") == ok)
    c.ensure("C23", "the key is the given one", lambda p: when(p.ret, "Ok", lambda b: z3.And(
        isv(fld(b, "recipient_key"), "Some", lambda k: map_(k) == map_(jpay(j, "Object"))), others(b, c, "recipient_key"))))


def header(alg, enc, kid):
    """kid: (present, text)"""
    h = EMPTY_MAP
    for k, v in (("typ", S("JWT")), ("alg", alg), ("enc", enc)):
        h = z3.Store(h, key(k), jo(v))
    return z3.If(kid[0], z3.Store(h, key("kid"), jo(kid[1])), h)


def sealed(payload, hdr, jwk):
    """(encrypter ok, encoding ok, compact JWE) of encrypting the payload map for a key."""
    ety = E.prog.ty_by_s("josekit::jwe::alg::ecdh_es::EcdhEsJweAlgorithm")
    alg = box(VAdt(ety, ety.vindex("EcdhEs"), ()))
    e = uf(ENCRYPTER, alg, box_map(jwk))
    t = uf(ENCODE, box_map(payload), box_map(hdr), okof(e))
    return disc(e) == 0, disc(t) == 0, tos(okof(t))


def claims_ok(m):
    k = z3.Const("k~cl", U)
    return z3.ForAll([k], imp(z3.Select(m, k) != absent, fn("jose_claim_ok", U, U, BOOL)(k, z3.Select(m, k))))


@contract(B + "::build", "C23", budget=90)
def build_c(c):
    b = c.init[0]
    pl, rk, al, en, kd = [fld(b, f) for f in FIELDS]
    some = lambda v: fld(v, 0, "Some")
    pj = box(some(pl))
    pm = map_(jpay(pj, "Object"))
    km = map_(some(rk))
    enc = z3.If(is_var(en, "Some"), s_(some(en)), S("A128GCM"))
    kk = at(km, "kid")
    own = z3.And(kk != absent, jis(kk, "String"))
    kid = (z3.Or(is_var(kd, "Some"), own), z3.If(is_var(kd, "Some"), s_(some(kd)), jstr(kk)))
    okx, okt, text = sealed(pm, header(S("ECDH-ES"), enc, kid), km)
    given = z3.And(is_var(pl, "Some"), is_var(rk, "Some"), isv(al, "Some", lambda a: s_(a) == S("ECDH-ES")), jis(pj, "Object"))
    c.ensure("C23", "needs payload, key and the one supported alg", lambda p: imp(is_var(p.ret, "Ok"), z3.And(given, okx, okt)))
    c.ensure("C23", "encrypts exactly the payload for the key under the stated header", lambda p: when(p.ret, "Ok", lambda s: s_(s) == text))
    c.ensure("C23", "succeeds whenever the parts are usable", lambda p: imp(z3.And(given, okx, okt, claims_ok(pm)), is_var(p.ret, "Ok")))


def member(a, i):
    return map_(jpay(sat_(a, i), "Object"))


def suitable(m):
    is_ = lambda k, v: z3.And(jhas_str(m, k), jstr(at(m, k)) == S(v))
    use = at(m, "use")
    return z3.And(is_("alg", "ECDH-ES"), is_("crv", "P-256"), z3.Or(use == absent, z3.Not(jis(use, "String")), jstr(use) == S("enc")))


def first(n, mem, i, k):
    return z3.And(0 <= i, i < n, suitable(mem(i)), z3.ForAll([k], imp(z3.And(0 <= k, k < i), z3.Not(suitable(mem(k))))))


FIND = JW + "find_encryption_jwk"


@contract(FIND, "C23", budget=90)
def find_c(c):
    n, mem = c.n, c.mem
    i, k = z3.Int("i~fk"), z3.Int("k~fk")
    valid = lambda i: fn("jose_jwk_ok", U, BOOL)(box_map(mem(i)))

    def is_key(x, i):
        m = mem(i)
        kid = at(m, "kid")
        has = z3.And(kid != absent, jis(kid, "String"))
        return z3.And(map_(fld(x, "jwk")) == m, s_(fld(x, "alg")) == jstr(at(m, "alg")),
                      z3.If(has, isv(fld(x, "kid"), "Some", lambda s: s_(s) == jstr(kid)), is_var(fld(x, "kid"), "None")))
    c.ensure("C23", "the first suitable key, with its own alg and kid", lambda p: when(p.ret, "Ok", lambda x: z3.Exists([i], z3.And(first(n, mem, i, k), is_key(x, i)))))
    c.ensure("C23", "an error only without a readable suitable key", lambda p: imp(is_var(p.ret, "Err"), z3.Not(z3.Exists([i], z3.And(first(n, mem, i, k), valid(i))))))


def find_args(c, ex, b, st):
    """Any finite iterator over key objects."""
    t = z3.Const("keys", U)
    ty = ex.prog.ty_by_s("serde_json::Map<std::string::String, serde_json::Value>")
    c.n = slen_term(t)
    c.mem = lambda i: tom(sat_(t, i))
    return [VIter(VSSeq(ty, t), 0, (("ref", None),))]


find_c.args = find_args


@contract(JW + "build_encrypted_response", "C23", budget=120)
def respond(c):
    inner = map_(fld(c.init[0], "inner"))
    cm = at(inner, "client_metadata")
    cmm = map_(jpay(cm, "Object"))
    jw = at(cmm, "jwks")
    ks = record_field(jw, "keys")
    a = box(jpay(ks, "Array"))
    valid = z3.And(cm != absent, jis(cm, "Object"), jw != absent, K_jwks.ok(jw))
    mem = lambda i: member(a, i)
    i, k = z3.Int("i~er"), z3.Int("k~er")
    ev = at(cmm, "encrypted_response_enc_values_supported")
    ea = box(jpay(ev, "Array"))
    enc = z3.If(z3.Or(ev == absent, slen_term(ea) == 0), S("A128GCM"), jstr(sat_(ea, 0)))
    vt = fld(c.init[1], 0)
    vty = strip(E.prog.ty_by_s("crate::core::response::parameters::VpToken")).field_ty(0, 0)
    tok = uf(f"ser<{tyname(strip(vty))}>", box(vt))
    st = c.init[2]
    p0 = z3.Store(EMPTY_MAP, key("vp_token"), tok)
    p1 = z3.Store(p0, key("state"), jo(s_(fld(fld(st, 0, "Some"), 0))))

    def sent(s, i, with_state, with_kid):
        m = mem(i)
        kid = at(m, "kid")
        has = z3.And(kid != absent, jis(kid, "String"))
        hdr = header(S("ECDH-ES"), enc, (T if with_kid else F, jstr(kid)))
        okx, okt, text = sealed(p1 if with_state else p0, z3.simplify(hdr), m)
        return imp(z3.And(is_var(st, "Some") == with_state, has == with_kid), z3.And(okx, okt, s == text))
    i0 = z3.Int("i0~er")
    jwt = lambda p, f: when(p.ret, "Ok", lambda r: isv(r, "Jwt", lambda x: f(s_(fld(x, 0)))))
    c.ensure("C23", "needs a well-formed key set", lambda p: jwt(p, lambda s: valid))
    c.ensure("C23", "needs a suitable key", lambda p: jwt(p, lambda s: z3.Exists([i], z3.And(0 <= i, i < slen_term(a), suitable(mem(i))))))
    for ws in (False, True):
        for wk in (False, True):
            c.ensure("C23", f"encrypts vp_token{' and state' if ws else ''} for the first suitable key {'with its' if wk else 'without'} kid",
                     lambda p, ws=ws, wk=wk: jwt(p, lambda s: imp(z3.And(valid, first(slen_term(a), mem, i0, k)), sent(s, i0, ws, wk))))
