"""C11, C12 request building; C13, C14 sessions; C12 VerifierBuilder; C15 MemoryStore."""
import serde_m
from models import tyname, url_str
from spec import *
from contracts.b_request import *
from contracts.c_resolve import *
from contracts.f_response import form_of
from contracts.g_url import url_part
from contracts.e_dcql import only_changed

VF = "crate::verifier::"
RB = VF + "request_builder::RequestBuilder::<'a>::"
CL = VF + "client::Client::"
ST = VF + "session::SessionStore::"


def client_of(v):
    return box(fld(v, "client"))


def client_id(v):
    ty = E.prog.ty_by_s("crate::core::authorization_request::parameters::ClientId")
    return s_(fld(VSym(ty, uf("env:" + CL + "id", client_of(v))), 0))


def client_prefix(v):
    ty = E.prog.ty_by_s("crate::core::authorization_request::parameters::ClientIdScheme")
    return s_(fld(VSym(ty, uf("env:" + CL + "prefix", client_of(v))), 0))


def ser(v):
    v = plain(v)
    ty = v.ty if hasattr(v, "ty") else None
    if isinstance(v, (VSeq, VSSeq)):
        raise Unsupported("ser of a sequence")
    return uf(f"ser<{tyname(strip(ty))}>", box(v))


def push(u, seg):
    return uf("url_push_segment", u, VStr(seg))


def uuid_text(u):
    return tos(uf("display<uuid::Uuid>", box(u)))


def has_segments(u):
    return fn("url_has_path_segments", U, BOOL)(box(u))


def session_of(ev):
    return plain(ev.args[1])


class Build:
    """What building must do, for the builder b, session id u and (for URLs) the wallet's metadata w."""

    def __init__(self, b, u, w=None):
        v = fld(b, "verifier")
        self.v, self.u, self.w, self.b = v, u, w, b
        self.q = fld(b, "dcql_query")
        m = map_(fld(b, "request_parameters"))
        self.m0 = m
        ep = fld(v, "submission_endpoint")
        mode = jstr(at(m, "response_mode"))
        self.direct = z3.Or(mode == S("direct_post"), mode == S("direct_post.jwt"))
        dc = z3.Or(mode == S("dc_api"), mode == S("dc_api.jwt"))
        self.uri = push(ep, uuid_text(u))
        self.given = z3.And(is_var(self.q, "Some"), jhas_str(m, "response_type"), jhas_str(m, "response_mode"), z3.Or(self.direct, dc),
                            imp(self.direct, has_segments(ep)))
        if w is not None:
            wm = map_(fld(w, 0))
            e = at(wm, "client_id_prefixes_supported")
            pok, pmem, _ = json_strs(e, "pre")
            pre = client_prefix(v)
            self.given = z3.And(self.given, z3.If(e == absent, pre == S("pre-registered"), z3.And(pok, pmem(pre))))

    def params(self, m):
        """m holds the parameters that must be issued."""
        k = z3.Const("k~param", U)
        own = [key("client_id"), key("dcql_query")]
        uri = key("response_uri")
        rest = z3.ForAll([k], imp(z3.And([k != x for x in own] + [z3.Not(z3.And(self.direct, k == uri))]),
                                  z3.Select(m, k) == z3.Select(self.m0, k)))
        return [("client_id is the client's own", z3.And(jhas_str(m, "client_id"), jstr(at(m, "client_id")) == client_id(self.v))),
                ("response_uri is the submission endpoint and the session id",
                 imp(self.direct, z3.And(jhas_str(m, "response_uri"), jstr(at(m, "response_uri")) == url_str(self.uri)))),
                ("every other parameter is kept", rest),
                ("dcql_query is the given query", self.query_json(at(m, "dcql_query")))]

    def query_json(self, t):
        q = fld(self.q, 0, "Some")
        m = map_(jpay(t, "Object"))
        cs = fld(q, "credential_sets")
        return z3.And(t != absent, jis(t, "Object"), at(m, "credentials") == ser(fld(q, "credentials")),
                      z3.If(is_var(cs, "None"), at(m, "credential_sets") == absent, at(m, "credential_sets") == ser(fld(cs, 0, "Some"))))

    def stored(self, ev, gen, status):
        """The initiate event stores this session."""
        s = session_of(ev)
        return [("stored in the verifier's store", box(ev.args[0]) == box(fld(self.v, "session_store"))),
                ("stored under its id", box(fld(s, "uuid")) == box(self.u)),
                ("the stored object is the one that was signed", box(fld(s, "authorization_request_object")) == box(gen.args[1])),
                ("the stored JWT is the one produced", z3.And(disc(box(gen.ret)) == 0, s_(fld(s, "authorization_request_jwt")) == tos(ok_of(box(gen.ret))))),
                ("the stored query is the given one", equal(fld(s, "dcql_query"), fld(self.q, 0, "Some"))),
                ("the initial status says how it was sent", status(fld(s, "status")))]


def events(p):
    """[generate], [initiate] and whether the trace is a prefix of generate, initiate."""
    g = [e for e in p.trace if e.name == CL + "generate_request_object_jwt"]
    i = [e for e in p.trace if e.name == ST + "initiate"]
    good = len(g) <= 1 and len(i) <= 1 and len(g) + len(i) == len(p.trace) and (not i or (g and p.trace[0] is g[0]))
    return g, i, good


def build_contract(path, url, fresh=False):
    @contract(path, "C11 C12", budget=120, uses=True)
    def f(c):
        b = c.init[0]
        ret_id = None

        def spec_of(p):
            if url and not fresh:
                return Build(b, c.init[1], c.init[2])
            w = c.init[1] if url else None
            # the fresh id is the one stored (and returned)
            g, i, good = events(p)
            return Build(b, fld(session_of(i[0]), "uuid"), w) if i else None
        c.ensure("C12", "signing comes first, storing second, each at most once", lambda p: events(p)[2])
        c.ensure("C12", "success only after the session was stored", lambda p: imp(is_var(p.ret, "Ok"), z3.And(
            disc(box(events(p)[1][0].ret)) == 0, disc(box(events(p)[0][0].ret)) == 0) if len(p.trace) == 2 and events(p)[2] else F))
        for nm in ["client_id is the client's own", "response_uri is the submission endpoint and the session id",
                   "every other parameter is kept", "dcql_query is the given query"]:
            def par(p, nm=nm):
                g, i, good = events(p)
                B = spec_of(p)
                if not g or B is None:
                    return T
                return z3.And([z3.And(box(e.args[0]) == client_of(B.v), dict(B.params(map_(fld(plain(e.args[1]), "inner"))))[nm]) for e in g])
            c.ensure("C11", "what is signed: " + nm, par)
        by_ref = lambda B: is_var(fld(B.v, "pass_by_reference"), "True")

        def status(B):
            if not url:
                return lambda s: is_var(s, "SentRequest")
            return lambda s: z3.If(by_ref(B), is_var(s, "SentRequestByReference"), is_var(s, "SentRequest"))
        for nm in ["stored in the verifier's store", "stored under its id", "the stored object is the one that was signed",
                   "the stored JWT is the one produced", "the stored query is the given one", "the initial status says how it was sent"]:
            def sto(p, nm=nm):
                g, i, good = events(p)
                if not i:
                    return T
                if not g:
                    return F
                B = spec_of(p)
                return dict(B.stored(i[0], g[-1], status(B)))[nm]
            c.ensure("C11", nm, sto)

        def complete(p):
            g, i, good = events(p)
            B = spec_of(p) or Build(b, unbox(E.prog.ty_by_s("uuid::Uuid"), z3.Const("any~uuid", U)), c.init[1] if url else None)
            fs = []
            if g:
                fs.append(B.given)
                fs.append(well_formed(map_(fld(plain(g[0].args[1]), "inner"))))
            if i:
                at_ = fld(fld(B.v, "pass_by_reference"), 0, "True")
                fs.append(disc(box(g[-1].ret)) == 0 if g else F)
                if url:
                    fs.append(imp(by_ref(B), has_segments(at_)))
            return z3.And([T] + fs)
        c.ensure("C12", "nothing is signed or stored for an incomplete or unsupported request", complete)

        if url:
            def returned(p, part):
                g, i, good = events(p)
                if not g or not i:
                    return z3.Not(is_var(p.ret, "Ok"))
                B = spec_of(p)
                wm = map_(fld(B.w, 0))
                ok, ep = parse_url(jstr(at(wm, "authorization_endpoint")))
                at_ = fld(fld(B.v, "pass_by_reference"), 0, "True")

                def good_url(u):
                    if part == "endpoint":
                        return z3.And(jhas_str(wm, "authorization_endpoint"), ok, *[url_part(u, x) == url_part(ep, x) for x in ("authority", "path", "scheme")])
                    oq = VSym(E.prog.ty_by_s("std::option::Option<&str>"), url_part(u, "query"))
                    m = form_of(s_(fld(oq, 0, "Some")))
                    only = z3.Store(EMPTY_MAP, key("client_id"), box(json_string(client_id(B.v))))
                    if part.startswith("by reference"):
                        k = z3.Const("k~uri", U)
                        want = {"by reference": z3.And(jhas_str(m, "request_uri"), jstr(at(m, "request_uri")) == url_str(push(at_, uuid_text(B.u)))),
                                "by reference, id": at(m, "client_id") == box(json_string(client_id(B.v))),
                                "by reference, only": z3.ForAll([k], imp(z3.And(k != key("client_id"), k != key("request_uri")), z3.Select(m, k) == absent))}[part]
                        return imp(by_ref(B), z3.And(is_var(oq, "Some"), want))
                    return imp(z3.Not(by_ref(B)), z3.And(is_var(oq, "Some"), m == z3.Store(only, key("request"), box(json_string(tos(ok_of(box(g[-1].ret))))))))
                if fresh:
                    return when(p.ret, "Ok", lambda t: z3.And(box(fld(t, 0)) == box(B.u), good_url(plain(fld(t, 1)))))
                return when(p.ret, "Ok", good_url)
            c.ensure("C11", "the URL is at the wallet's endpoint", lambda p: returned(p, "endpoint"))
            c.ensure("C11", "the URL holds the request_uri of this session", lambda p: returned(p, "by reference"))
            c.ensure("C11", "the URL with a request_uri holds the client_id", lambda p: returned(p, "by reference, id"))
            c.ensure("C11", "the URL with a request_uri holds nothing else", lambda p: returned(p, "by reference, only"))
            c.ensure("C11", "the URL holds exactly the client_id and the signed JWT", lambda p: returned(p, "by value"))
        else:
            c.ensure("C11", "the stored id and the JWT are returned", lambda p: when(p.ret, "Ok", lambda t: z3.And(
                box(fld(t, 0)) == box(fld(session_of(events(p)[1][0]), "uuid")), s_(fld(t, 1)) == tos(ok_of(box(events(p)[0][0].ret))))
                if len(p.trace) == 2 else F))


build_contract(RB + "build_with_session_id", True)
build_contract(RB + "build", True, fresh=True)
build_contract(RB + "build_dc_api", False)
