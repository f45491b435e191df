"""C13, C14 sessions; C12 VerifierBuilder; C15 MemoryStore; C11 RequestBuilder setters."""
from spec import *
from contracts.a_object import KEYT
from contracts.e_dcql import fields_of, only_changed
from contracts.i_verifier import *

V_ = VF + "Verifier::"
VB = VF + "VerifierBuilder::"
ANY_ID = "crate::core::authorization_request::parameters::ClientId"


def calls(p, *names):
    """The events are exactly calls of these functions, in this order."""
    return len(p.trace) == len(names) and all(e.name == n for e, n in zip(p.trace, names))


def of_session(c, e):
    """The call is to this verifier's store, about the given id."""
    return z3.And(box(e.args[0]) == box(fld(c.init[0], "session_store")), box(e.args[1]) == box(c.init[1]))


def found(p):
    return ok_of(box(p.trace[0].ret))


def succeeded(e):
    return disc(box(e.ret)) == 0


def session_term(c, t):
    return VSym(E.prog.ty_by_s(VF + "session::Session"), t)


@contract(V_ + "poll_status", "C13")
def poll(c):
    c.ensure("C13", "asks only for the session of the id", lambda p: of_session(c, p.trace[0]) if calls(p, ST + "get_session") else F)
    c.ensure("C13", "reports the stored status", lambda p: imp(succeeded(p.trace[0]), isv(
        p.ret, "Ok", lambda s: equal(s, fld(session_term(c, found(p)), "status")))) if p.trace else F)
    c.ensure("C13", "store errors are reported", lambda p: imp(z3.Not(succeeded(p.trace[0])), is_var(p.ret, "Err")) if p.trace else F)


@contract(V_ + "retrieve_authorization_request", "C13")
def retrieve(c):
    early = lambda p: is_var(fld(session_term(c, found(p)), "status"), "SentRequestByReference")
    two = [ST + "get_session", ST + "update_status"]

    def trace(p):
        if calls(p, two[0]):
            return imp(succeeded(p.trace[0]), z3.Not(early(p)))
        if calls(p, *two):
            e = p.trace[1]
            return z3.And(succeeded(p.trace[0]), early(p), of_session(c, e), is_var(e.args[2], "SentRequest"))
        return F
    c.ensure("C13", "asks for the session of the id", lambda p: of_session(c, p.trace[0]) if p.trace else F)
    c.ensure("C13", "the status moves to sent exactly when it was earlier", trace)
    c.ensure("C13", "returns the stored JWT", lambda p: when(p.ret, "Ok", lambda s: z3.And(
        succeeded(p.trace[0]), s_(s) == s_(fld(session_term(c, found(p)), "authorization_request_jwt"))) if p.trace else F))
    c.ensure("C13", "succeeds exactly when the store does", lambda p: is_var(p.ret, "Ok") == z3.And([succeeded(e) for e in p.trace]) if p.trace else F)


@contract(V_ + "verify_response", "C14")
def verify(c):
    G, P, W = ST + "get_session", "future", ST + "update_status"
    c.ensure("C14", "the session of the id is looked up first", lambda p: of_session(c, p.trace[0]) if p.trace and p.trace[0].name == G else F)
    c.ensure("C14", "an unknown session ends there", lambda p: imp(z3.Not(succeeded(p.trace[0])), z3.And(is_var(p.ret, "Err"), z3.BoolVal(len(p.trace) == 1))) if p.trace else F)
    c.ensure("C14", "the validator runs exactly once and its outcome is recorded once",
             lambda p: imp(succeeded(p.trace[0]), z3.BoolVal(calls(p, G, P, W))) if p.trace else F)
    c.ensure("C14", "the validator gets the stored session and the submitted response", lambda p: (
        box(p.trace[1].args[0]) == uf("callback", c.init[3], found(p), c.init[2])) if calls(p, G, P, W) else T)
    c.ensure("C14", "what is recorded is the validator's outcome, for this session", lambda p: z3.And(
        of_session(c, p.trace[2]), isv(p.trace[2].args[2], "Complete", lambda o: equal(o, p.trace[1].ret))) if calls(p, G, P, W) else T)
    c.ensure("C14", "success only if recording succeeded", lambda p: is_var(p.ret, "Ok") == succeeded(p.trace[2]) if calls(p, G, P, W) else T)


# ---------------------------------------------------------------- status order
STATUS = "openid4vp_frontend::Status"
RANK = ["SentRequestByReference", "SentRequest", "ReceivedResponse", "Complete"]


@contract("<openid4vp_frontend::Status as std::cmp::PartialOrd>::partial_cmp", "C13")
def status_cmp(c):
    a, b = c.init
    for i, x in enumerate(RANK):
        for j, y in enumerate(RANK):
            if i == j == len(RANK) - 1:
                continue
            want = "Less" if i < j else "Equal" if i == j else "Greater"
            c.ensure("C13", f"{x} is {want} compared with {y}", lambda p, x=x, y=y, want=want: imp(
                z3.And(is_var(a, x), is_var(b, y)), isv(p.ret, "Some", lambda o: plain(o).e == {"Less": -1, "Equal": 0, "Greater": 1}[want])))


def bool_(v):
    return plain(v).e if isinstance(plain(v), VBool) else plain(v).t


# ---------------------------------------------------------------- VerifierBuilder
NEEDED = ["client", "session_store", "submission_endpoint"]


@contract(VB + "build", "C12")
def vb_build(c):
    b = c.init[0]
    c.ensure("C12", "a verifier only when everything required is set", lambda p: is_var(p.ret, "Ok") == z3.And([is_var(fld(b, f), "Some") for f in NEEDED]))
    for f in NEEDED:
        c.ensure("C12", f"the verifier uses the given {f}", lambda p, f=f: when(p.ret, "Ok", lambda v: box(fld(v, f)) == box(fld(fld(b, f), 0, "Some"))))
    for f in ["default_request_params", "pass_by_reference"]:
        c.ensure("C12", f"the verifier uses the given {f}", lambda p, f=f: when(p.ret, "Ok", lambda v: equal(fld(v, f), fld(b, f))))
    c.ensure("C12", "building touches nothing else", lambda p: z3.BoolVal(not p.trace))


def vb_setter(name, field, new):
    @contract(VB + name, "C12")
    def f(c):
        b = c.init[0]
        c.ensure("C12", f"{name} changes exactly its field", lambda p: z3.And(
            [new(c, fld(p.ret, field))] + [box(fld(p.ret, f)) == box(fld(b, f)) for f in fields_of(b) if f != field]))


some = lambda c, v: isv(v, "Some", lambda x: box(x) == box(c.init[1]))
vb_setter("with_client", "client", some)
vb_setter("with_session_store", "session_store", some)
vb_setter("with_submission_endpoint", "submission_endpoint", some)
vb_setter("by_value", "pass_by_reference", lambda c, v: is_var(v, "False"))
vb_setter("by_reference", "pass_by_reference", lambda c, v: isv(v, "True", lambda x: box(x) == box(c.init[1])))


def inserted(m0, m1, t):
    j = uf_term("env:std::convert::TryInto::try_into<serde_json::Value>", box(t))
    return z3.If(disc(j) == 0, m1 == z3.Store(m0, KEYT, fld_term("std::result::Result", "Ok", 0, j)), m1 == m0)


vb_setter("with_default_request_parameter", "default_request_params",
          lambda c, v: inserted(map_(fld(c.init[0], "default_request_params")), map_(v), c.init[1]))


@contract(["<crate::verifier::VerifierBuilder as std::default::Default>::default", V_ + "builder"], "C12")
def vb_default(c):
    c.ensure("C12", "nothing is set at first", lambda p: z3.And(
        [is_var(fld(p.ret, f), "None") for f in NEEDED] + [is_var(fld(p.ret, "pass_by_reference"), "False"), map_(fld(p.ret, "default_request_params")) == EMPTY_MAP]))


# ---------------------------------------------------------------- RequestBuilder
@contract([RB + "new", V_ + "build_authorization_request"], "C11 C12")
def rb_new(c):
    c.ensure("C11 C12", "starts from the verifier's defaults and no query", lambda p: z3.And(
        is_var(fld(p.ret, "dcql_query"), "None"), box(fld(p.ret, "verifier")) == box(c.init[0]),
        map_(fld(p.ret, "request_parameters")) == map_(fld(c.init[0], "default_request_params"))))


@contract(RB + "with_dcql_query", "C11")
def rb_query(c):
    c.ensure("C11", "changes exactly the query", lambda p: z3.And(
        isv(fld(p.ret, "dcql_query"), "Some", lambda q: box(q) == box(c.init[1])), box(fld(p.ret, "verifier")) == box(fld(c.init[0], "verifier")),
        map_(fld(p.ret, "request_parameters")) == map_(fld(c.init[0], "request_parameters"))))


@contract(RB + "with_request_parameter", "C11")
def rb_param(c):
    c.ensure("C11", "changes exactly that parameter", lambda p: z3.And(
        inserted(map_(fld(c.init[0], "request_parameters")), map_(fld(p.ret, "request_parameters")), c.init[1]),
        box(fld(p.ret, "dcql_query")) == box(fld(c.init[0], "dcql_query")), box(fld(p.ret, "verifier")) == box(fld(c.init[0], "verifier"))))


# ---------------------------------------------------------------- MemoryStore
MS = "<crate::verifier::session::MemoryStore as crate::verifier::session::SessionStore>::"


def cell(c):
    return box(fld(c.init[0], "store"))


def content(v):
    return plain(v).arr if isinstance(plain(v), VMap) else toM(box(v))


def sections(c, p):
    """The map at the start and at the end of each time the operation held this store's lock."""
    out = []
    for s in p.st.sections:
        if s != "busy":
            k, b, a = s
            out.append((content(b), content(a if a is not None else p.st.cells[k])))
    return out


def one_step(c, p, f):
    """Linearisable: in one critical section f(content before, content after) holds, any others change nothing.
    (Others may change the content between the critical sections.)"""
    ss = sections(c, p)
    alts = []
    for i, (b, a) in enumerate(ss):
        alts.append(z3.And([f(b, a)] + [x == y for j, (x, y) in enumerate(ss) if j != i]))
    return z3.Or(alts) if alts else z3.BoolVal(False)


def busy(p):
    return "busy" in p.st.sections


def frame(c):
    c.ensure("C15", "only this store's lock is taken, and it is released", lambda p: z3.BoolVal(
        not p.st.guards and all(s == "busy" or s[0] == ("heap", cell(c).get_id()) for s in p.st.sections)))
    c.ensure("C15", "an error leaves the store alone", lambda p: imp(is_var(p.ret, "Err"), z3.And([z3.BoolVal(True)] + [a == b for a, b in sections(c, p)])))
    c.ensure("C15", "a busy store is an error", lambda p: imp(z3.BoolVal(busy(p)), is_var(p.ret, "Err")))


def known_id(c, step):
    """An error for an unknown id, otherwise the step (content before, entry, content after)."""
    k = box(c.init[1])

    def post(p):
        if busy(p):
            return z3.BoolVal(True)

        def f(b, a):
            e = z3.Select(b, k)
            return z3.And(imp(e == absent, z3.And(is_var(p.ret, "Err"), a == b)), imp(e != absent, step(p, k, b, e, a)))
        return one_step(c, p, f)
    return post


@contract(MS + "initiate", "C15")
def ms_initiate(c):
    frame(c)
    s = c.init[1]
    c.ensure("C15", "stores the session under its id and nothing else", lambda p: z3.BoolVal(True) if busy(p) else z3.And(
        is_var(p.ret, "Ok"), one_step(c, p, lambda b, a: a == z3.Store(b, box(fld(s, "uuid")), box(s)))))


@contract(MS + "get_session", "C15")
def ms_get(c):
    frame(c)
    c.ensure("C15", "fetching changes nothing", lambda p: z3.And([z3.BoolVal(True)] + [a == b for a, b in sections(c, p)]))
    c.ensure("C15", "fetches the stored session; an unknown id is an error", known_id(c, lambda p, k, b, e, a: isv(p.ret, "Ok", lambda s: box(s) == e)))


@contract(MS + "remove_session", "C15")
def ms_remove(c):
    frame(c)
    c.ensure("C15", "removes exactly that session; an unknown id is an error", known_id(c, lambda p, k, b, e, a: z3.And(
        is_var(p.ret, "Ok"), a == z3.Store(b, k, absent))))


@contract(MS + "update_status", "C15")
def ms_update(c):
    frame(c)

    def step(p, k, b, e, a):
        n = z3.Select(a, k)
        return z3.And(is_var(p.ret, "Ok"), only_changed(session_term(c, e), session_term(c, n), "status", c.init[2]),
                      a == z3.Store(b, k, n), n != absent)
    c.ensure("C15", "changes only the status of only that session; an unknown id is an error", known_id(c, step))


@contract("<crate::verifier::session::MemoryStore as std::default::Default>::default", "C15")
def ms_default(c):
    c.ensure("C15", "a new store touches nothing", lambda p: z3.BoolVal(not p.trace))
