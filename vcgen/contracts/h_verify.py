"""C08 DID, C09 x509_san_dns, C10 x509_hash verification; C28 the P-256 verifier."""
from models import b64enc, b64_ok, sha256, before_first
from spec import *
from contracts.b_request import *
from contracts.c_resolve import *


def alg_listed(wallet, a):
    m = map_(fld(wallet, 0))
    e = at(m, "request_object_signing_alg_values_supported")
    ok, mem, _ = json_strs(e, "algs")
    return z3.And(e != absent, ok, mem(a))


def stripped(s, prefix):
    n = len(prefix)
    return z3.If(z3.PrefixOf(S(prefix), s), z3.SubString(s, n, z3.Length(s) - n), s)


def client_id_of(aro):
    o = fld(aro, "client_id")
    return is_var(o, "Some"), s_(fld(fld(o, 0, "Some"), 0))


FETCH = "JWKResolver::fetch_public_jwk"


@contract(V + "did::verify_with_resolver", "C08", budget=90)
def did_c(c):
    wallet, aro, jwt, trusted, resolver = c.init
    e = s_(jwt)
    hok, h = jwt_header(e)
    alg = jstr(at(h, "alg"))
    listed = z3.And(hok, jhas_str(h, "alg"), alg_listed(wallet, alg))
    none = z3.Contains(alg, S("none"))
    kid = jstr(at(h, "kid"))
    did = before_first(kid, S("#"))
    has_cid, cid = client_id_of(aro)
    lst = box(fld(trusted, 0, "Some"))
    k = z3.Int("k~did")
    in_list = z3.Exists([k], z3.And(0 <= k, k < slen_term(lst), tos(sat_(lst, k)) == did))
    bound = z3.And(listed, jhas_str(h, "kid"), z3.Contains(kid, S("#")), has_cid, stripped(cid, "decentralized_identifier:") == did)
    trust = imp(is_var(trusted, "Some"), in_list)

    def verified(p):
        ev = p.trace
        if len(ev) != 1 or not ev[0].name.endswith(FETCH):
            return F
        r = box(ev[0].ret)
        return z3.And(box(ev[0].args[0]) == box(resolver), isv(ev[0].args[1], "Some", lambda s: s_(s) == kid),
                      disc(r) == 0, disc(uf("jwt_decode_verify<serde_json::Value>", VStr(e), ok_of(r))) == 0)
    c.ensure("C08", "accepted only if listed alg, kid's DID is the client's and trusted",
             lambda p: imp(is_var(p.ret, "Ok"), z3.And(listed, z3.Or(none, z3.And(bound, trust)))))
    c.ensure("C08", "accepted only if signed by the key resolved for that kid",
             lambda p: imp(z3.And(is_var(p.ret, "Ok"), z3.Not(none)), verified(p)))
    c.ensure("C08", "the resolver is asked only for a bound, trusted kid",
             lambda p: z3.And(bound, trust) if p.trace else T)
    c.ensure("C08", "a request meeting all conditions is accepted", lambda p: imp(
        is_var(p.ret, "Err"), z3.Not(z3.And(listed, z3.Or(none, z3.And(bound, trust, verified(p) if p.trace else T))))))


def x509_common(c, binding, prefix):
    wallet, aro, jwt = c.init[:3]
    e = s_(jwt)
    hok, h = jwt_header(e)
    _, (hb, body, sig) = jws_parts(e)
    alg = jstr(at(h, "alg"))
    x5c = at(h, "x5c")
    chain = box(jpay(x5c, "Array"))
    first = sat_(chain, 0)
    from models import fn as _fn
    text = _fn("str_trim_end_matches", STR, STR, STR)(jstr(first), S("="))
    dok, der = b64_ok("STANDARD_NO_PAD", text)
    ct = uf("x509_cert::der::Decode::from_der<x509_cert::certificate::CertificateInner>", VStr(der))
    cert = ok_of(ct)
    tbs = fld_term("x509_cert::certificate::CertificateInner", "0", 0, cert)
    spki = fld_term("x509_cert::certificate::TbsCertificateInner", "0", 6, tbs)
    has_cid, cid = client_id_of(aro)
    vt = uf("env:" + V + "verifier::Verifier::from_spki", uf("owned_to_ref", spki), VStr(alg))
    sok, sg = b64_ok("URL_SAFE_NO_PAD", sig)
    ver = uf("env:" + V + "verifier::Verifier::verify", ok_of(vt), VStr(z3.Concat(hb, S("."), body)), VStr(sg))
    return (z3.And(hok, jhas_str(h, "alg"), alg_listed(wallet, alg)),
            z3.And(x5c != absent, jis(x5c, "Array"), slen_term(chain) > 0, jis(first, "String"), dok, disc(ct) == 0),
            z3.And(has_cid, binding(stripped(cid, prefix), der, tbs)),
            z3.And(disc(vt) == 0, sok, disc(ver) == 0))


def x509_contract(path, prop, prefix, binding, what):
    @contract(path, prop, budget=90)
    def f(c):
        listed, leaf, bound, signed = x509_common(c, binding, prefix)
        ok = lambda g: (lambda p: imp(is_var(p.ret, "Ok"), g))
        c.ensure(prop, "accepted only with an alg the wallet lists", ok(listed))
        c.ensure(prop, "accepted only with a decodable leaf certificate", ok(leaf))
        c.ensure(prop, "accepted only if the client_id is " + what, ok(bound))
        c.ensure(prop, "accepted only if header.payload verifies under the leaf's key and alg", ok(signed))
        c.ensure(prop, "a request meeting all conditions is accepted",
                 lambda p: imp(is_var(p.ret, "Err"), z3.Not(z3.And(listed, leaf, bound, signed))))
        c.ensure(prop, "no other effects", lambda p: len(p.trace) == 0)


x509_contract(V + "x509_hash::validate", "C10", "x509_hash:",
              lambda cid, der, tbs: cid == b64enc("URL_SAFE_NO_PAD", sha256(der)), "the leaf's hash")


def san_binding(cid, der, tbs):
    flt = "x509_cert::certificate::TbsCertificateInner::<P>::filter<x509_cert::certificate::Rfc5280,x509_cert::ext::pkix::SubjectAltName>"
    xs = uf("elements", uf(flt, tbs))
    i, j = z3.Int("i~san"), z3.Int("j~san")
    ext = sat_(xs, i)
    san = fld_term("tuple2", "0", 1, fld_term("std::result::Result", "Ok", 0, ext))
    names = fld_term("x509_cert::ext::pkix::SubjectAltName", "0", 0, san)
    gn = sat_(names, j)
    dns = tos(uf("display<x509_cert::der::asn1::Ia5String>", fld_term("x509_cert::ext::pkix::name::GeneralName", "DnsName", 0, gn)))
    gty = E.prog.ty_by_s("x509_cert::ext::pkix::name::GeneralName")
    return z3.Exists([i, j], z3.And(0 <= i, i < slen_term(xs), disc(ext) == 0, 0 <= j, j < slen_term(names),
                                    disc(gn) == gty.discr(gty.vindex("DnsName")), dns == cid))


x509_contract(V + "x509_san::validate", "C09", "x509_san_dns:", san_binding, "one of its DNS names")
