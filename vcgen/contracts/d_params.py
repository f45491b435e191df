"""C19 typed parameters, C20 protocol identifiers."""
from spec import *
from contracts.a_object import length, elem, vec
from contracts.b_request import *

PA = AR + "parameters::"
MV = "crate::core::metadata::parameters::verifier::"
MW = "crate::core::metadata::parameters::wallet::"
RP = "crate::core::response::parameters::"
DQ = "crate::core::dcql_query::"
JS = "serde_json::Value"


def try_path(t):
    return f"<{t} as std::convert::TryFrom<{JS}>>::try_from"


def from_path(t, fallible=False):
    mod = t.rsplit("::", 1)[0]
    tr = "TryFrom" if fallible else "From"
    return f"{mod}::<impl std::convert::{tr}<{t}> for {JS}>::{'try_' if fallible else ''}from"


def strings_are(v, e, f=lambda x: tos(x)):
    """v is the sequence of the strings of JSON array e."""
    a = box(jpay(e, "Array"))
    k = z3.Int("k~strs")
    return z3.And(length(v) == slen_term(a), z3.ForAll([k], z3.Implies(
        z3.And(k >= 0, k < slen_term(a)), f(elem(v, k)) == jstr(sat_(a, k)))))


def all_kind(e, kind, nm="k~kind"):
    a = box(jpay(e, "Array"))
    k = z3.Int(nm)
    return z3.And(jis(e, "Array"), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < slen_term(a)), jis(sat_(a, k), kind))))


class K_string:
    ok = staticmethod(lambda e: jis(e, "String"))
    val = staticmethod(lambda v, e: s_(fld(v, 0)) == jstr(e))


class K_url:
    ok = staticmethod(lambda e: z3.And(jis(e, "String"), parse_url(jstr(e))[0]))
    val = staticmethod(lambda v, e: box(fld(v, 0)) == parse_url(jstr(e))[1])


class K_strings:
    ok = staticmethod(lambda e: all_kind(e, "String"))
    val = staticmethod(lambda v, e: strings_are(fld(v, 0), e))


class K_rtypes:
    ok = staticmethod(lambda e: all_kind(e, "String"))

    @staticmethod
    def val(v, e):
        a = box(jpay(e, "Array"))
        k = z3.Int("k~rts")
        ty = E.prog.ty_by_s(PA + "ResponseType")
        s = fld(v, 0)
        return z3.And(length(s) == slen_term(a), z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < slen_term(a)), is_rtype(VSym(ty, elem(s, k)), jstr(sat_(a, k))))))


class K_schemes:
    ok = staticmethod(lambda e: all_kind(e, "String"))
    val = staticmethod(lambda v, e: strings_are(fld(v, 0), e, lambda x: s_(fld(VSym(E.prog.ty_by_s(PA + "ClientIdScheme"), x), 0))))


class K_array:
    ok = staticmethod(lambda e: jis(e, "Array"))
    val = staticmethod(lambda v, e: box(fld(v, 0)) == box(jpay(e, "Array")))


class K_object:
    ok = staticmethod(lambda e: jis(e, "Object"))
    val = staticmethod(lambda v, e: map_(v) == map_(jpay(e, "Object")))


class K_mode:
    ok = staticmethod(lambda e: jis(e, "String"))

    @staticmethod
    def val(v, e):
        s = jstr(e)
        known = z3.Or([s == S(t) for t in MODES.values()])
        return z3.And(is_mode(v, MODES, s), z3.Implies(z3.Not(known), isv(v, "Unsupported", lambda x: s_(x) == s)))


class K_rtype:
    ok = staticmethod(lambda e: jis(e, "String"))
    val = staticmethod(lambda v, e: is_rtype(v, jstr(e)))


class K_method:
    ok = staticmethod(lambda e: z3.And(jis(e, "String"), z3.Or(jstr(e) == S("get"), jstr(e) == S("post"))))
    val = staticmethod(lambda v, e: is_mode(v, {"Get": "get", "Post": "post"}, jstr(e)))


class K_jwks:
    @staticmethod
    def ok(e):
        ks = let(record_field(e, "keys"))
        return z3.And(z3.Or(jis(e, "Object"), z3.And(jis(e, "Array"), slen_term(box(jpay(e, "Array"))) == 1)), ks != absent, all_kind(ks, "Object"))

    @staticmethod
    def val(v, e):
        ks = let(record_field(e, "keys"))
        a = box(jpay(ks, "Array"))
        k = z3.Int("k~jwks")
        s = fld(v, 0)
        return z3.And(length(s) == slen_term(a), z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < slen_term(a)), tom(elem(s, k)) == map_(jpay(sat_(a, k), "Object")))))


def invariant(v):
    """Canonical values: the catch-all variant does not hold the text of a known identifier."""
    v = plain(v)
    nm = strip(v.ty).path.rsplit("::", 1)[-1]
    table = {"ResponseMode": MODES, "ResponseType": TYPES}.get(nm)
    if table:
        ty = strip(v.ty)
        return z3.And(z3.Or([is_var(v, ty.vname(i)) for i in range(ty.nvariants)]), when(v, "Unsupported", lambda x: z3.And([s_(x) != S(t) for t in table.values()])))
    if nm == "ResponseTypesSupported":
        x = box(fld(v, 0))
        k = z3.Int("k~inv")
        e = VSym(E.prog.ty_by_s(PA + "ResponseType"), sat_(x, k))
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < slen_term(x)), invariant(e)), patterns=[sat_(x, k)])
    return T


PARAMS = [  # type, registered key, kind
    (PA + "ClientId", "client_id", K_string), (PA + "ClientIdScheme", None, K_string), (PA + "ClientMetadata", "client_metadata", K_object),
    (PA + "Nonce", "nonce", K_string), (PA + "Audience", "aud", K_string), (PA + "RedirectUri", "redirect_uri", K_url),
    (PA + "ResponseUri", "response_uri", K_url), (PA + "ResponseMode", "response_mode", K_mode), (PA + "ResponseType", "response_type", K_rtype),
    (PA + "State", "state", K_string), (PA + "ExpectedOrigins", "expected_origins", K_strings),
    (PA + "TransactionData", "transaction_data", K_strings), (PA + "VerifierInfo", "verifier_info", K_array),
    (PA + "RequestUriMethod", "request_uri_method", K_method), (MV + "JWKs", "jwks", K_jwks),
    (MV + "EncryptedResponseEncValuesSupported", "encrypted_response_enc_values_supported", K_strings),
    (MW + "Issuer", "issuer", K_string), (MW + "AuthorizationEndpoint", "authorization_endpoint", K_url),
    (MW + "ResponseTypesSupported", "response_types_supported", K_rtypes), (MW + "ClientIdPrefixesSupported", "client_id_prefixes_supported", K_schemes),
    (MW + "RequestObjectSigningAlgValuesSupported", "request_object_signing_alg_values_supported", K_strings),
    (MW + "AuthorizationEncryptionAlgValuesSupported", "authorization_encryption_alg_values_supported", K_strings),
    (MW + "AuthorizationEncryptionEncValuesSupported", "authorization_encryption_enc_values_supported", K_strings),
    (RP + "IdToken", "id_token", K_string), (MV + "VpFormats", "vp_formats_supported", None), (MW + "VpFormatsSupported", "vp_formats_supported", None),
    (RP + "VpToken", "vp_token", None), (DQ + "DcqlQuery", "dcql_query", None),
]


def registered(t):
    return E.prog.consts.get(f"<{t} as crate::core::object::TypedParameter>::KEY")


def add(t, k, kind):
    fall = t.endswith(("VpFormats", "VpFormatsSupported"))
    uses_id = " C20" if kind in (K_mode, K_rtype, K_method) else ""

    @contract(try_path(t), "C19" + uses_id)
    def reads(c):
        e = box(c.init[0])
        if k is not None:
            kc = registered(t)
            c.lemma("C19", f"stored under '{k}'", [], z3.BoolVal(kc is not None and kc.get("b") == k))
        if kind is None:
            return
        c.ensure("C19" + uses_id, "accepts exactly the JSON of its kind", lambda p: is_var(p.ret, "Ok") == kind.ok(e))
        c.ensure("C19" + uses_id, "reads the value unchanged", lambda p: when(p.ret, "Ok", lambda v: kind.val(v, e)))

    @contract(from_path(t, fall), "C19" + uses_id)
    def round_trip(c):
        hyp = invariant(c.init[0])
        c.then("C19" + uses_id, "to JSON and back is the same value", [try_path(t)],
               lambda p: imp(hyp, isv(p.ret, "Ok", lambda v: equal(v, c.init[0]))), ok_first=fall)


for _p in PARAMS:
    add(*_p)


# ---------------------------------------------------------------- C20 identifiers
CF = "crate::core::credential_format::"
FORMATS = {"JwtVcJson": "jwt_vc_json", "LdpVc": "ldp_vc", "MsoMDoc": "mso_mdoc", "DcSdJwt": "dc+sd-jwt"}


def reads_as(v, s, table, other):
    known = z3.Or([s == S(t) for t in table.values()])
    return z3.And(is_mode(v, table, s), z3.Implies(z3.Not(known), isv(v, other, lambda x: s_(x) == s)))


def writes_as(v, s, table, other):
    """s is the string of the identifier v."""
    return z3.And([when(v, n, lambda *a, t=t: s == S(t)) for n, t in table.items()] + [when(v, other, lambda x: s == s_(x))])


def identifier(t, table, other, extra_from=(), serde=True):
    mod = t.rsplit("::", 1)[0]

    @contract([f"<{t} as std::convert::From<std::string::String>>::from"] + list(extra_from), "C20")
    def from_string(c):
        c.ensure("C20", "each specified string is its variant, any other is kept verbatim", lambda p: reads_as(
            fld(p.ret, 0, "Ok") if strip(p.ret.ty).path == RESULT else p.ret, s_(c.init[0]), table, other))

    @contract([f"{mod}::<impl std::convert::From<{t}> for std::string::String>::from"], "C20")
    def to_string(c):
        c.ensure("C20", "conversion gives the specified string", lambda p: writes_as(c.init[0], s_(p.ret), table, other))

    if serde:
        @contract([serde_key("ser", t)], "C20 C19")
        def ser(c):
            c.ensure("C20 C19", "JSON gives the specified string", lambda p: isv(p.ret, "Ok", lambda j: z3.And(
                jis(box(j), "String"), writes_as(c.init[0], jstr(box(j)), table, other))))

        @contract([serde_key("de", t)], "C20 C19")
        def de(c):
            e = box(c.init[0])
            c.ensure("C20 C19", "read from exactly a JSON string", lambda p: is_var(p.ret, "Ok") == jis(e, "String"))
            c.ensure("C20 C19", "each specified string is its variant, any other is kept verbatim",
                     lambda p: when(p.ret, "Ok", lambda v: reads_as(v, jstr(e), table, other)))


RESULT = "std::result::Result"


def display(t, table, other):
    @contract(f"<{t} as std::fmt::Display>::fmt", "C20")
    def disp(c):
        c.ensure("C20", "display writes the specified string", lambda p: imp(is_var(p.ret, "Ok"), z3.And(
            [when(c.init[0], n, lambda *a, x=x: s_(p.fin[1]) == z3.Concat(s_(c.init[1]), S(x))) for n, x in table.items()] +
            [when(c.init[0], other, lambda x: s_(p.fin[1]) == z3.Concat(s_(c.init[1]), s_(x)))])))


identifier(PA + "ResponseMode", MODES, "Unsupported")
identifier(PA + "ResponseType", TYPES, "Unsupported")
identifier(CF + "ClaimFormatDesignation", FORMATS, "Other", [
    f"<{CF}ClaimFormatDesignation as std::convert::From<&str>>::from", f"<{CF}ClaimFormatDesignation as std::str::FromStr>::from_str",
    f"{CF}ClaimFormatDesignation::from_name"])
display(PA + "ResponseMode", MODES, "Unsupported")
display(CF + "ClaimFormatDesignation", FORMATS, "Other")


@contract([f"{CF}ClaimFormatDesignation::name", f"{CF}ClaimFormatDesignation::into_name"], "C20")
def cfd_name(c):
    c.ensure("C20", "the name is the specified string", lambda p: writes_as(c.init[0], s_(p.ret), FORMATS, "Other"))


@contract(PA + "ResponseMode::is_jarm", "C20")
def is_jarm(c):
    m = c.init[0]
    c.ensure("C20", "an unsupported mode is an error", lambda p: is_var(p.ret, "Err") == is_var(m, "Unsupported"))
    c.ensure("C20", "exactly the .jwt modes are encrypted",
             lambda p: when(p.ret, "Ok", lambda b: b_(b) == z3.Or(is_var(m, "DirectPostJwt"), is_var(m, "DcApiJwt"))))


@contract(f"<{PA}ResponseMode as std::default::Default>::default", "C20 C06")
def mode_default(c):
    c.ensure("C20 C06", "an absent mode is direct_post", lambda p: is_var(p.ret, "DirectPost"))


@contract(f"<{PA}RequestUriMethod as std::default::Default>::default", "C20")
def method_default(c):
    c.ensure("C20", "an absent method is get", lambda p: is_var(p.ret, "Get"))


@contract(PA + "ClientId::resolve_prefix", "C01 C04")
def resolve_prefix(c):
    s = s_(fld(c.init[0], 0))
    has = z3.Contains(s, S(":"))
    c.ensure("C01 C04", "the prefix is the text before the first colon", lambda p: z3.If(
        has, isv(p.ret, "Some", lambda x: s_(fld(x, 0)) == before_first(s, S(":"))), is_var(p.ret, "None")))
