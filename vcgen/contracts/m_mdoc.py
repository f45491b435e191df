"""C21 mdoc handovers and session transcripts; C22 JWK thumbprints."""
from models import sha256, J
from spec import *
from contracts.d_params import *
from contracts.e_dcql import roundtrip, ref_getter

IS = "crate::core::iso_18013_7::"
IDS = {"Handover": "OpenID4VPHandover", "DcApiHandover": "OpenID4VPDCAPIHandover"}


def jt():
    return E.prog.ty_by_s("serde_json::Value")


def text(e):
    return J(E.prog, "String", VStr(e))


def null():
    return serde_m.null(E.prog)


def byt(e):
    return serde_m.bytes_token(E.prog, VStr(e))


def arr(*xs):
    return J(E.prog, "Array", VSeq(jt(), list(xs)))


def hash_of(*xs):
    return sha256(serde_m.cbor_text(arr(*xs)))


def handover(name, parts):
    t = IS + name

    @contract(t + "::new", "C21")
    def new(c):
        tp = c.init[2]
        for nm, cond, tok in (("with a thumbprint", is_var(tp, "Some"), byt(s_(fld(tp, 0, "Some")))), ("without a thumbprint", is_var(tp, "None"), null())):
            want = hash_of(*[tok if i == 2 else text(s_(c.init[i])) for i in parts])
            c.ensure("C21", f"the hash is of exactly the session's values, in order, {nm}",
                     lambda p, cond=cond, want=want: imp(cond, isv(p.ret, "Ok", lambda h: s_(fld(h, 0)) == want)))

    @contract(t + "::to_cbor_bytes", "C21")
    def enc(c):
        c.ensure("C21", "encodes as its identifier and hash", lambda p: isv(p.ret, "Ok", lambda b: s_(b) == serde_m.cbor_text(
            arr(text(S(IDS[name])), byt(s_(fld(c.init[0], 0)))))))

    @contract([serde_key("ser", t)], "C21")
    def ser_(c):
        c.ensure("C21", "serialises as its identifier and hash", lambda p: isv(p.ret, "Ok", lambda j: box(j) == box(arr(text(S(IDS[name])), byt(s_(fld(c.init[0], 0)))))))

    @contract([serde_key("de", t)], "C21")
    def de_(c):
        j = box(c.init[0])
        a = box(jpay(j, "Array"))
        c.ensure("C21", "only an array of two items with its own identifier is accepted", lambda p: imp(is_var(p.ret, "Ok"), z3.And(
            jis(j, "Array"), slen_term(a) == 2, jis(sat_(a, 0), "String"), jstr(sat_(a, 0)) == S(IDS[name]))))
        bs = map_(jpay(sat_(a, 1), "Object"))
        bk = z3.Select(bs, box_str(serde_m.pstr(serde_m.BYTES_KEY)))
        c.ensure("C21", "the hash is the second item's bytes", lambda p: when(p.ret, "Ok", lambda h: z3.And(
            jis(sat_(a, 1), "Object"), bk != absent, s_(fld(h, 0)) == jstr(bk))))
    roundtrip(t, "C21")
    ref_getter(t, "handover_info_hash", 0, "C21") if False else None

    @contract(t + "::handover_info_hash", "C21")
    def get(c):
        c.ensure("C21", "reports its hash", lambda p: s_(p.ret) == s_(fld(c.init[0], 0)))


handover("Handover", [0, 1, 2, 3])
handover("DcApiHandover", [0, 1, 2])

TR = IS + "SessionTranscript"


def h_of(v):
    return uf("ser<H>", box(fld(v, 0)))


def jsym(t):
    return VSym(jt(), t)


@contract(TR + "::<H>::to_cbor_bytes", "C21")
def tr_bytes(c):
    want = serde_m.cbor_text(arr(null(), null(), jsym(h_of(c.init[0]))))
    c.ensure("C21", "encodes as [null, null, handover]", lambda p: isv(p.ret, "Ok", lambda b: s_(b) == want))


@contract([serde_key("ser", TR)], "C21")
def tr_ser(c):
    c.ensure("C21", "serialises as [null, null, handover]", lambda p: isv(p.ret, "Ok", lambda j: box(j) == box(arr(null(), null(), jsym(h_of(c.init[0]))))))


@contract([TR + "::<H>::new"], "C21")
def tr_new(c):
    c.ensure("C21", "holds the given handover", lambda p: box(fld(p.ret, 0)) == box(c.init[0]))


@contract([TR + "::<H>::handover"], "C21")
def tr_get(c):
    c.ensure("C21", "reports its handover", lambda p: box(p.ret) == box(fld(c.init[0], 0)))


roundtrip(TR, "C21")


# ---------------------------------------------------------------- C22
def thumb(m):
    """(has a thumbprint, thumbprint) of the JWK with members m."""
    s = lambda k: jstr(at(m, k))
    has = lambda *ks: z3.And([jhas_str(m, k) for k in ks])
    ec = z3.And(has("kty", "crv", "x", "y"), s("kty") == S("EC"))
    rsa = z3.And(has("kty", "e", "n"), s("kty") == S("RSA"))
    t_ec = z3.Concat(S('{"crv":"'), s("crv"), S('","kty":"EC","x":"'), s("x"), S('","y":"'), s("y"), S('"}'))
    t_rsa = z3.Concat(S('{"e":"'), s("e"), S('","kty":"RSA","n":"'), s("n"), S('"}'))
    return z3.Or(ec, rsa), ec, rsa, sha256(t_ec), sha256(t_rsa)


@contract(IS + "compute_jwk_thumbprint", "C22")
def thumb_c(c):
    j = box(c.init[0])
    m = map_(jpay(j, "Object"))
    ok, ec, rsa, he, hr = thumb(m)
    c.ensure("C22", "exactly EC and RSA keys with their required members have one", lambda p: is_var(p.ret, "Ok") == z3.And(jis(j, "Object"), ok))
    c.ensure("C22", "an EC key's is the hash of crv, kty, x, y", lambda p: imp(ec, when(p.ret, "Ok", lambda h: tos(box(h)) == he)))
    c.ensure("C22", "an RSA key's is the hash of e, kty, n", lambda p: imp(rsa, when(p.ret, "Ok", lambda h: tos(box(h)) == hr)))


@contract(IS + "get_encryption_jwk_thumbprint", "C22", budget=90)
def enc_thumb(c):
    inner = map_(fld(c.init[0], "inner"))
    cm = at(inner, "client_metadata")
    jw = at(map_(jpay(cm, "Object")), "jwks")
    ks = record_field(jw, "keys")
    a = box(jpay(ks, "Array"))
    valid = z3.And(cm != absent, jis(cm, "Object"), jw != absent, K_jwks.ok(jw))
    i, k = z3.Int("i~tp"), z3.Int("k~tp")
    mem = lambda i: map_(jpay(sat_(a, i), "Object"))

    def usable(i):
        use = at(mem(i), "use")
        return z3.And(0 <= i, i < slen_term(a), z3.Or(use == absent, z3.Not(jis(use, "String")), jstr(use) == S("enc")), thumb(mem(i))[0])
    first = lambda i: z3.And(usable(i), z3.ForAll([k], imp(z3.And(0 <= k, k < i), z3.Not(usable(k)))))
    hv = lambda i: (lambda t: z3.If(t[1], t[3], t[4]))(thumb(mem(i)))
    c.ensure("C22", "the first usable key's thumbprint", lambda p: when(p.ret, "Some", lambda h: z3.And(valid, z3.Exists([i], z3.And(first(i), tos(box(h)) == hv(i))))))
    c.ensure("C22", "none only without a usable key", lambda p: imp(is_var(p.ret, "None"), z3.Not(z3.And(valid, z3.Exists([i], usable(i))))))
