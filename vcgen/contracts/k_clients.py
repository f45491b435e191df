"""C17 submitting responses; C27 verifier clients; C28 the P-256 signer and verifier."""
from models import b64enc, sha256, tyname, url_str, known_ext
from spec import *
from contracts.b_request import *
from contracts.c_resolve import *
from contracts.f_response import form_of, vp_token_of
from contracts.h_verify import V, stripped
from contracts.i_verifier import VF, CL

# ---------------------------------------------------------------- C17
FORM = "application/x-www-form-urlencoded"


def str_trim(e):
    return fn("str_trim", STR, STR)(e)


@contract("crate::wallet::Wallet::submit_response", "C17", budget=90)
def submit(c):
    wallet, req, resp = c.init
    mode = fld(req, "response_mode")
    post = z3.Or(z3.And(is_var(mode, "DirectPost"), is_var(resp, "Unencoded")), z3.And(is_var(mode, "DirectPostJwt"), is_var(resp, "Jwt")))
    api = z3.Or(is_var(mode, "DcApi"), is_var(mode, "DcApiJwt"))
    client = uf("env:crate::wallet::Wallet::http_client", wallet)
    c.ensure("C17", "something is sent only for a matching mode and kind of response", lambda p: post if p.trace else T)
    c.ensure("C17", "at most one request is sent", lambda p: z3.BoolVal(len(p.trace) <= 1))
    c.ensure("C17", "the dc_api modes send and return nothing",
             lambda p: imp(api, z3.And(z3.BoolVal(not p.trace), isv(p.ret, "Ok", lambda o: is_var(o, "None")))))
    c.ensure("C17", "a mismatch or unsupported mode is an error", lambda p: imp(z3.Not(z3.Or(post, api)), is_var(p.ret, "Err")))
    c.ensure("C17", "a matching response is sent before success", lambda p: imp(z3.And(post, is_var(p.ret, "Ok")), z3.BoolVal(len(p.trace) == 1)))

    def sent(p, f):
        if not p.trace:
            return T
        e = p.trace[0]
        if not e.name.endswith("AsyncHttpClient::execute"):
            return F
        return f(e, *http_parts(box(e.args[1])))
    c.ensure("C17", "it is a POST to the return address by the wallet's client", lambda p: sent(p, lambda e, m, u, h, b: z3.And(
        box(e.args[0]) == client, m == z3.Const("http~POST", U), u == box_str(url_str(box(fld(req, "return_uri")))))))
    c.ensure("C17", "it carries the form content type and the version preference",
             lambda p: sent(p, lambda e, m, u, h, b: headers_ok(tom(h), {"content-type": FORM})))

    def body(e, m, u, h, b):
        fm = form_of(tos(b))
        un, jw = fld(resp, 0, "Unencoded"), fld(resp, 0, "Jwt")
        ok, v = vp_token_of(jstr(at(fm, "vp_token")))
        st = fld(un, "state")
        k = z3.Const("k~body", U)
        only = lambda *ks: z3.ForAll([k], imp(z3.And([k != key(x) for x in ks]), z3.Select(fm, k) == absent))
        enc = z3.And(jhas_str(fm, "response"), jstr(at(fm, "response")) == s_(fld(jw, 0)), only("response"))
        pl = z3.And(jhas_str(fm, "vp_token"), ok, v == box(fld(fld(un, "vp_token"), 0)),
                    z3.If(is_var(st, "None"), at(fm, "state") == absent, z3.And(jhas_str(fm, "state"), jstr(at(fm, "state")) == s_(fld(fld(st, 0, "Some"), 0)))),
                    only("vp_token", "state"))
        return z3.If(is_var(resp, "Jwt"), enc, pl)
    c.ensure("C17", "its body is the form encoding of the response", lambda p: sent(p, body))

    def reply(p):
        if not p.trace:
            return T
        rt = box(p.trace[0].ret)
        r = ok_of(rt)
        text = tos(uf("http::Response::<T>::into_body<std::vec::Vec<u8>>", r))
        succ = b_(VRaw(uf("http::StatusCode::is_success", uf("http::Response::<T>::status<std::vec::Vec<u8>>", r))))
        blank = str_trim(text) == S("")
        jok, j = json_text(text)
        fine = z3.And(disc(rt) == 0, succ, fn("is_utf8", STR, BOOL)(text), z3.Or(blank, jok))
        m = map_(jpay(j, "Object"))
        has_uri = z3.And(z3.Not(blank), jis(j, "Object"), jhas_str(m, "redirect_uri"))
        uok, u = parse_url(jstr(at(m, "redirect_uri")))
        return z3.And(is_var(p.ret, "Ok") == z3.And(fine, imp(has_uri, uok)), when(p.ret, "Ok", lambda o: z3.And(
            is_var(o, "Some") == has_uri, when(o, "Some", lambda x: box(x) == u))))
    c.ensure("C17", "the reply decides: errors are reported, the redirect is the reply's redirect_uri", reply)


# ---------------------------------------------------------------- C27
CM = VF + "client::"
RS = VF + "request_signer::RequestSigner::"
FETCH = "JWKResolver::fetch_public_jwk"


def ident(c, f):
    """C27: id(s) of constructed clients."""
    return f


@contract(CM + "DIDClient::new", "C27")
def did_new(c):
    vm, signer, resolver = c.init
    e = s_(vm)
    jw = uf("env:" + RS + "jwk", signer)
    did = z3.SubString(e, 0, z3.LastIndexOf(e, S("#")))

    def fetched(p):
        if len(p.trace) != 1 or not p.trace[0].name.endswith(FETCH):
            return F
        ev = p.trace[0]
        return z3.And(box(ev.args[0]) == box(resolver), isv(ev.args[1], "Some", lambda s: s_(s) == e), disc(box(ev.ret)) == 0,
                      disc(jw) == 0, jwk_eq(ok_of(box(ev.ret)), ok_of(jw)))
    c.ensure("C27", "created only if the key resolved for the method is the signer's", lambda p: imp(is_var(p.ret, "Ok"), fetched(p)))
    c.ensure("C27", "created whenever the keys agree", lambda p: imp(is_var(p.ret, "Err"), z3.Not(z3.And(z3.Contains(e, S("#")), fetched(p))) if p.trace else z3.Not(z3.Contains(e, S("#")))))
    c.ensure("C27", "its client_id is the prefix and the DID", lambda p: when(p.ret, "Ok", lambda x: z3.And(
        z3.Contains(e, S("#")), s_(fld(fld(x, "id"), 0)) == z3.Concat(S("decentralized_identifier:"), did))))
    c.ensure("C27", "it keeps the method and the signer", lambda p: when(p.ret, "Ok", lambda x: z3.And(
        s_(fld(x, "vm")) == e, box(fld(x, "signer")) == box(signer))))


def jwk_eq(a, b):
    return E.eq_terms(E.prog.ty_by_s("ssi_jwk::JWK"), a, b) if hasattr(E, "eq_terms") else a == b


def der_of(cert):
    return uf("x509_cert::der::Encode::to_der<x509_cert::certificate::CertificateInner>", cert)


def keeps(c, p):
    x5c, signer = c.init
    return when(p.ret, "Ok", lambda x: z3.And(box(fld(x, "x5c")) == box(x5c), box(fld(x, "signer")) == box(signer)))


@contract(CM + "X509HashClient::new", "C27")
def hash_new(c):
    ch = box(c.init[0])
    leaf = sat_(ch, 0)
    d = der_of(leaf)
    c.ensure("C27", "an empty chain or undecodable leaf is an error, nothing else is", lambda p: is_var(p.ret, "Ok") == z3.And(slen_term(ch) > 0, disc(d) == 0))
    c.ensure("C27", "its client_id is the prefix and the leaf's hash", lambda p: when(p.ret, "Ok", lambda x: s_(fld(fld(x, "id"), 0)) == z3.Concat(
        S("x509_hash:"), b64enc("URL_SAFE_NO_PAD", sha256(tos(ok_of(d)))))))
    c.ensure("C27", "it keeps the chain and the signer", lambda p: keeps(c, p))


@contract(CM + "X509SanDnsClient::new", "C27")
def san_new(c):
    ch = box(c.init[0])
    leaf = sat_(ch, 0)
    tbs = fld_term("x509_cert::certificate::CertificateInner", "0", 0, leaf)
    flt = "x509_cert::certificate::TbsCertificateInner::<P>::filter<x509_cert::certificate::Rfc5280,x509_cert::ext::pkix::SubjectAltName>"
    xs = uf("elements", uf(flt, tbs))
    gty = E.prog.ty_by_s("x509_cert::ext::pkix::name::GeneralName")

    def names(i):
        return fld_term("x509_cert::ext::pkix::SubjectAltName", "0", 0, fld_term("tuple2", "0", 1, fld_term("std::result::Result", "Ok", 0, sat_(xs, i))))

    def is_dns(i, j):
        return z3.And(0 <= i, i < slen_term(xs), disc(sat_(xs, i)) == 0, 0 <= j, j < slen_term(names(i)), disc(sat_(names(i), j)) == gty.discr(gty.vindex("DnsName")))

    def dns(i, j):
        return tos(uf("display<x509_cert::der::asn1::Ia5String>", fld_term("x509_cert::ext::pkix::name::GeneralName", "DnsName", 0, sat_(names(i), j))))
    i, j, a, b = z3.Ints("i~new j~new a~new b~new")
    first = lambda i, j: z3.And(is_dns(i, j), z3.ForAll([a, b], imp(is_dns(a, b), z3.Or(a > i, z3.And(a == i, b >= j)))))
    any_ = z3.Exists([i, j], is_dns(i, j))
    c.ensure("C27", "created only from a non-empty chain", lambda p: imp(is_var(p.ret, "Ok"), slen_term(ch) > 0))
    c.ensure("C27", "its client_id is the prefix and the leaf's first DNS name", lambda p: when(p.ret, "Ok", lambda x: z3.Exists(
        [i, j], z3.And(first(i, j), s_(fld(fld(x, "id"), 0)) == z3.Concat(S("x509_san_dns:"), dns(i, j))))))
    c.ensure("C27", "a chain whose leaf has a DNS name is accepted", lambda p: imp(is_var(p.ret, "Err"), z3.Not(z3.And(slen_term(ch) > 0, any_))))
    c.ensure("C27", "it keeps the chain and the signer", lambda p: keeps(c, p))


def jwt_contract(client, header, no_header=None):
    path = f"<{CM}{client} as {CM}Client>::"

    @contract(path + "id", "C27")
    def id_(c):
        c.ensure("C27", "id reports the client_id", lambda p: s_(fld(p.ret, 0)) == s_(fld(fld(c.init[0], "id"), 0)))

    @contract(path + "prefix", "C27")
    def prefix_(c):
        want = {"DIDClient": "decentralized_identifier", "X509SanDnsClient": "x509_san_dns", "X509HashClient": "x509_hash"}[client]
        c.ensure("C27", "prefix reports its prefix", lambda p: s_(fld(p.ret, 0)) == S(want))

    @contract(path + "generate_request_object_jwt", "C27", budget=90)
    def gen(c):
        me, aro = c.init
        signer = fld(me, "signer")
        algt = uf("env:" + RS + "alg", signer)

        def sign(p):
            return p.trace[0] if len(p.trace) == 1 and p.trace[0].name == RS + "sign" else None

        def jwt(p):
            """Decodes what was signed and returned."""
            e = sign(p)
            payload = tos(box(e.args[1]))
            return e, payload

        def ok_only(p):
            e = sign(p)
            if e is None:
                return z3.And(is_var(p.ret, "Err"), z3.BoolVal(not p.trace))
            return z3.And(box(e.args[0]) == box(signer), disc(algt) == 0)
        c.ensure("C27", "signed once by the signer, which has an alg", ok_only)

        def shape(p):
            e = sign(p)
            if e is None:
                return T
            pay = s_(e.args[1])
            return when(p.ret, "Ok", lambda r: s_(r) == z3.Concat(pay, S("."), b64enc("URL_SAFE_NO_PAD", tos(box(e.ret)))))
        c.ensure("C27", "the JWT is what was signed, '.', and the signature", shape)

        def parts(p):
            """The header and body texts, read off the signed payload b64(h) '.' b64(b)."""
            pay = z3.simplify(s_(sign(p).args[1]))
            bits = []

            def flat(x):
                if x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                    for y in x.children():
                        flat(y)
                else:
                    bits.append(x)
            flat(pay)
            enc = "b64enc~URL_SAFE_NO_PAD"
            if len(bits) == 3 and bits[0].decl().name() == enc and bits[2].decl().name() == enc and z3.is_string_value(bits[1]) and bits[1].as_string() == ".":
                return bits[0].arg(0), bits[2].arg(0)
            raise Unsupported("shape of the signed payload")

        def head(p):
            if sign(p) is None:
                return T
            h, _ = parts(p)
            ok, j = json_text(h)
            m = map_(jpay(j, "Object"))
            k = z3.Const("k~hdr", U)
            return z3.And(ok, jis(j, "Object"), jhas_str(m, "alg"), jstr(at(m, "alg")) == tos(ok_of(algt)),
                          jhas_str(m, "typ"), jstr(at(m, "typ")) == S("oauth-authz-req+jwt"), header(me, m))
        c.ensure("C27", "its header holds the signer's alg, the typ and the key reference", head)

        def body(p):
            if sign(p) is None:
                return T
            _, b = parts(p)
            ok, j = json_text(b)
            return z3.And(ok, jis(j, "Object"), map_(jpay(j, "Object")) == map_(fld(aro, "inner")))
        c.ensure("C27", "its body is the request object", body)
        c.ensure("C27", "fails only if the signer has no alg or a certificate cannot be encoded", lambda p: imp(
            is_var(p.ret, "Err"), z3.Or(disc(algt) != 0, no_header(me) if no_header else F)))


def kid(me, m):
    return z3.And(jhas_str(m, "kid"), jstr(at(m, "kid")) == s_(fld(me, "vm")))


def x5c_of(me, m):
    ch = box(fld(me, "x5c"))
    e = at(m, "x5c")
    xs = box(jpay(e, "Array"))
    i = z3.Int("i~x5c")
    return z3.And(e != absent, jis(e, "Array"), slen_term(xs) == slen_term(ch), z3.ForAll([i], imp(
        z3.And(0 <= i, i < slen_term(ch)), z3.And(jis(sat_(xs, i), "String"), jstr(sat_(xs, i)) == b64enc("STANDARD", tos(ok_of(der_of(sat_(ch, i)))))))))


def bad_der(me):
    ch = box(fld(me, "x5c"))
    i = z3.Int("i~der")
    return z3.Exists([i], z3.And(0 <= i, i < slen_term(ch), disc(der_of(sat_(ch, i))) != 0))


jwt_contract("DIDClient", kid)
jwt_contract("X509SanDnsClient", x5c_of, bad_der)
jwt_contract("X509HashClient", x5c_of, bad_der)

# ---------------------------------------------------------------- C28
SPKI = "<ecdsa::verifying::VerifyingKey<C> as std::convert::TryFrom<p256::pkcs8::SubjectPublicKeyInfo<x509_cert::der::AnyRef<'_>, x509_cert::der::asn1::BitStringRef<'_>>>>::try_from"
VERIFY = "<ecdsa::verifying::VerifyingKey<C> as p256::ecdsa::signature::Verifier<ecdsa::Signature<C>>>::verify"
FROM_SLICE = "ecdsa::Signature::<C>::from_slice"
TO_VEC = "ecdsa::Signature::<C>::to_vec"
SIGN = "p256::ecdsa::signature::Signer::sign"
VK = "ecdsa::signing::SigningKey::<C>::verifying_key"
PK = "ecdsa::verifying::<impl std::convert::From<&ecdsa::verifying::VerifyingKey<C>> for p256::elliptic_curve::PublicKey<C>>::from"
JWKS = "p256::elliptic_curve::PublicKey::<C>::to_jwk_string"
known_ext("ecdsa::Signature::<C>::from_der", "ecdsa::Signature::<C>::normalize_s", "ecdsa::Signature::<C>::from_bytes", "ecdsa::Signature::<C>::to_der")
known_ext(SPKI, VERIFY, FROM_SLICE, TO_VEC, SIGN, VK, PK, JWKS)
N = "<p256::NistP256>"
PV = f"<{V}verifier::P256Verifier as {V}verifier::Verifier>::"
PS = VF + "request_signer::P256Signer"
PSR = f"<{PS} as {VF}request_signer::RequestSigner>::"
JS = f"<{PS} as ssi_claims::ssi_jws::JwsSigner>::"


@contract(PV + "from_spki", "C28")
def from_spki(c):
    t = uf(SPKI + N, c.init[0])
    c.ensure("C28", "built exactly for ES256 and a P-256 key", lambda p: is_var(p.ret, "Ok") == z3.And(s_(c.init[1]) == S("ES256"), disc(t) == 0))
    c.ensure("C28", "it verifies with that key", lambda p: when(p.ret, "Ok", lambda v: box(fld(v, 0)) == ok_of(t)))


def sig_ok(vk, msg, raw):
    s = uf(FROM_SLICE + N, raw)
    return z3.And(disc(s) == 0, disc(uf(VERIFY + N, vk, msg, ok_of(s))) == 0)


@contract(PV + "verify", "C28")
def p_verify(c):
    c.ensure("C28", "accepts exactly a valid signature of the given bytes under its key",
             lambda p: is_var(p.ret, "Ok") == sig_ok(box(fld(c.init[0], 0)), box(c.init[1]), box(c.init[2])))


@contract(PS + "::new", "C28")
def s_new(c):
    k = c.init[0]
    text = uf(JWKS + N, uf(PK + N, uf(VK + N, k)))
    ok, j = json_text(tos(text))
    r = uf("de<ssi_jwk::JWK>", j)
    c.ensure("C28", "holds the given key and the JWK of its public key", lambda p: when(p.ret, "Ok", lambda s: z3.And(
        box(fld(s, "key")) == box(k), box(fld(s, "jwk")) == ok_of(r))))
    c.ensure("C28", "fails only if that JWK cannot be read", lambda p: imp(is_var(p.ret, "Err"), z3.Not(z3.And(ok, disc(r) == 0))))


def alg_of(s):
    return jwk_field(s, 2, "std::option::Option<ssi_jwk::Algorithm>")


def jwk_field(s, i, ty):
    """A public field of ssi's JWK (0 use, 1 key_ops, 2 algorithm, 3 key_id)."""
    return VSym(E.prog.ty_by_s(ty), fld_term("ssi_jwk::JWK", "0", i, box(fld(s, "jwk"))))


@contract(PSR + "alg", "C28")
def s_alg(c):
    a = alg_of(c.init[0])
    es = ctor_es256()
    c.ensure("C28", "reports the alg its JWK names, otherwise ES256", lambda p: isv(p.ret, "Ok", lambda s: s_(s) == tos(uf(
        "display<ssi_jwk::Algorithm>", z3.If(is_var(a, "Some"), box(fld(a, 0, "Some")), es)))))


def ctor_es256():
    return z3.Const("mk~ssi_jwk::Algorithm~ES256", U)


@contract([PSR + "jwk", PS + "::jwk"], "C28")
def s_jwk(c):
    def post(p):
        r = plain(p.ret)
        if is_res(r):
            return isv(r, "Ok", lambda j: box(j) == box(fld(c.init[0], "jwk")))
        return box(r) == box(fld(c.init[0], "jwk"))
    c.ensure("C28", "reports its own JWK", post)


def is_res(v):
    return getattr(strip(v.ty), "path", None) == "std::result::Result" if hasattr(v, "ty") and v.ty is not None else False


def crypto(sk, msg):
    """Assumed of the p256 crate: signatures are readable and valid under the signing key's verifying key."""
    s = uf(SIGN + "<ecdsa::signing::SigningKey<p256::NistP256>,ecdsa::Signature<p256::NistP256>>", sk, msg)
    raw = uf(TO_VEC + N, s)
    back = uf(FROM_SLICE + N, raw)
    return z3.And(disc(back) == 0, ok_of(back) == s, disc(uf(VERIFY + N, uf(VK + N, sk), msg, s)) == 0), raw


@contract(PSR + "sign", "C28")
def s_sign(c):
    s, m = c.init
    ax, raw = crypto(box(fld(s, "key")), box(m))
    c.ensure("C28", "signs exactly the payload with its key", lambda p: s_(p.ret) == tos(raw))
    c.ensure("C28", "its signatures are accepted under its public key", lambda p: imp(ax, sig_ok(uf(VK + N, fld(s, "key")), box(m), box_str(s_(p.ret)))))


@contract(JS + "sign_bytes", "C28")
def s_bytes(c):
    s, m = c.init
    ax, raw = crypto(box(fld(s, "key")), box(m))
    c.ensure("C28", "signs exactly the payload with its key", lambda p: isv(p.ret, "Ok", lambda r: s_(r) == tos(raw)))


@contract(JS + "fetch_info", "C28")
def s_info(c):
    a = alg_of(c.init[0])
    c.ensure("C28", "reports its JWK's key id and alg, otherwise ES256", lambda p: isv(p.ret, "Ok", lambda i: z3.And(
        fld_term("ssi_claims::ssi_jws::JwsSignerInfo", "0", 1, box(i)) == z3.If(is_var(a, "Some"), box(fld(a, 0, "Some")), ctor_es256()),
        fld_term("ssi_claims::ssi_jws::JwsSignerInfo", "0", 0, box(i)) == box(jwk_field(c.init[0], 3, "std::option::Option<std::string::String>")))))
