"""C16 authorization responses as forms."""
from spec import *
from contracts.c_resolve import json_text, ok_of
from contracts.d_params import *
from contracts.e_dcql import roundtrip, ref_getter, build
from models import tyname

R = "crate::core::response::"
FROM = R + "AuthorizationResponse::from_x_www_form_urlencoded"


def form_of(e):
    return serde_m.form_map(E.prog, e)


def vp_token_of(e):
    """(ok, vp_token's map term) of reading text as a vp_token."""
    ok, j = json_text(e)
    ty = strip(E.prog.ty_by_s(RP + "VpToken")).field_ty(0, 0)
    r = uf(f"de<{tyname(ty)}>", j)
    return z3.And(ok, disc(r) == 0), ok_of(r)


@contract(FROM, "C16")
def from_form(c):
    m = form_of(s_(c.init[0]))
    resp, tok, state = at(m, "response"), at(m, "vp_token"), at(m, "state")
    c.ensure("C16", "a response parameter makes it the encrypted kind",
             lambda p: imp(resp != absent, isv(p.ret, "Ok", lambda r: isv(r, "Jwt", lambda j: s_(fld(j, 0)) == jstr(resp)))))
    ok, v = vp_token_of(jstr(tok))
    c.ensure("C16", "any other body needs a valid vp_token",
             lambda p: imp(resp == absent, is_var(p.ret, "Ok") == z3.And(tok != absent, ok)))

    def plain_(r):
        return isv(r, "Unencoded", lambda u: z3.And(
            box(fld(fld(u, "vp_token"), 0)) == v,
            z3.If(state == absent, is_var(fld(u, "state"), "None"), isv(fld(u, "state"), "Some", lambda s: s_(fld(s, 0)) == jstr(state)))))
    c.ensure("C16", "vp_token and state are read as sent", lambda p: imp(resp == absent, when(p.ret, "Ok", plain_)))


@contract(R + "UnencodedAuthorizationResponse::into_x_www_form_urlencoded", "C16")
def plain_rt(c):
    c.then("C16", "an unencrypted response decodes to itself", [FROM],
           lambda p: isv(p.ret, "Ok", lambda r: isv(r, "Unencoded", lambda u: equal(u, c.init[0]))), ok_first=True, conv=VRef)


@contract(R + "JwtAuthorizationResponse::into_x_www_form_urlencoded", "C16")
def jwt_rt(c):
    c.then("C16", "an encrypted response decodes to itself", [FROM],
           lambda p: isv(p.ret, "Ok", lambda r: isv(r, "Jwt", lambda u: equal(u, c.init[0]))), ok_first=True, conv=VRef)


roundtrip(R + "JwtAuthorizationResponse", "C16")
roundtrip(R + "UnencodedAuthorizationResponse", "C16")
ref_getter(R + "UnencodedAuthorizationResponse", "vp_token", "vp_token", "C16")
ref_getter(R + "UnencodedAuthorizationResponse", "state", "state", "C16")
build(R + "UnencodedAuthorizationResponse", ["vp_token"], "C16")


@contract(R + "UnencodedAuthorizationResponse::with_state", "C16")
def with_state(c):
    c.ensure("C16", "holds the given token and state", lambda p: z3.And(
        equal(fld(p.ret, "vp_token"), c.init[0]), isv(fld(p.ret, "state"), "Some", lambda s: equal(s, c.init[1]))))


@contract(f"<{R}UnencodedAuthorizationResponse as std::convert::TryFrom<crate::core::object::UntypedObject>>::try_from", "C16")
def from_object(c):
    m = map_(c.init[0])
    state = at(m, "state")

    def ok(u):
        return z3.And(at(m, "vp_token") != absent,
                      imp(z3.Or(state == absent, jis(state, "Null")), is_var(fld(u, "state"), "None")),
                      imp(z3.And(state != absent, jis(state, "String")), isv(fld(u, "state"), "Some", lambda s: s_(fld(s, 0)) == jstr(state))))
    c.ensure("C16", "vp_token is required and state kept", lambda p: when(p.ret, "Ok", ok))


@contract(f"<{RP}VpTokenItem as std::convert::From<std::string::String>>::from", "C16")
def item_of_string(c):
    c.ensure("C16", "a string presentation is kept", lambda p: isv(p.ret, "String", lambda s: s_(s) == s_(c.init[0])))
