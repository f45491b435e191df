"""Contracts on functions of /repo: pre- and postconditions over the symbolic meaning of their MIR.

A contract names a function by its path.  Its body is executed symbolically on arbitrary arguments
(local callees are inlined unless they have a summary contract, dependencies are uninterpreted), and
every postcondition becomes one proof obligation per way the function can return:
path condition  =>  postcondition.  Reaching a panic is an obligation of its own (never).
"""
import re
import time
import traceback

import z3

import exe
import models
import serde_m
import sym
from mir import strip
from models import J, j_is, j_payload, uf_term, url_str
from sym import *

T, F = z3.BoolVal(True), z3.BoolVal(False)


# ---------------------------------------------------------------- registry
class Contract:
    def __init__(self, path, props, fn_, summary=False, panics=True, generic=None, budget=60, uses=False, opaque=()):
        self._path, self.props, self.fn = path, props, fn_
        self.summary, self.panics, self.budget = summary, panics, budget
        self.generic, self.uses, self.opaque = generic, uses, opaque

    @property
    def path(self):
        return str(self._path)


CONTRACTS = []


def contract(path, props, **kw):
    """path: function path, or a list of alternative paths."""
    def d(f):
        ps = path if isinstance(path, list) else [path]
        for p in ps:
            CONTRACTS.append(Contract(p, props.split() if isinstance(props, str) else props, f, **kw))
        return f
    return d


class SerdeKey:
    """Path of a type's Serialize ('ser') or Deserialize ('de') body, looked up when the program is loaded."""

    def __init__(self, kind, ty):
        self.kind, self.ty = kind, ty

    def __str__(self):
        return f"<{self.ty} as serde::{'Serialize' if self.kind == 'ser' else 'Deserialize'}>"


def serde_key(kind, ty):
    return SerdeKey(kind, ty)


def resolve(path):
    if isinstance(path, SerdeKey):
        k = serde_m.index(E.prog)[path.kind].get(path.ty)
        if k is None:
            raise Lost(str(path))
        return k
    return path


SUMMARIES = {}


class Summary:
    """Contract of a pure function that its callers use instead of its body."""

    def __init__(self, path, post):
        self.path, self.post = path, post


def summary(path):
    def d(f):
        SUMMARIES[path] = Summary(path, f)
        return f
    return d


# ---------------------------------------------------------------- formulas over values
class Env:
    prog = None


E = Env()


def S(x):
    return pstr(x) if isinstance(x, str) else x


def plain(v):
    while isinstance(v, VRef):
        v = v.x
    return v


def is_var(v, name):
    v = plain(v)
    if isinstance(v, VAdt):
        return z3.BoolVal(v.ty.vname(v.v) == name)
    if isinstance(v, VSym):
        ty = strip(v.ty)
        if not ty.is_enum:
            return T
        return disc_term(ty, v.t) == ty.discr(ty.vindex(name))
    raise Unsupported(f"is_var {name} of {type(v).__name__}")


def fld(v, name, variant=None):
    """Field by name or index of a struct, tuple, or given enum variant."""
    v = plain(v)
    if isinstance(v, VTup):
        return v.fs[name]
    if isinstance(v, VClo):
        return v.fs[name]
    ty = strip(v.ty)
    if ty.k == "tuple":
        return unbox(ty.elems[name], fld_term(adt_name(ty), "0", name, v.t))
    vi = ty.vindex(variant) if variant is not None else 0
    i = ty.findex(vi, name) if isinstance(name, str) else name
    if isinstance(v, VAdt):
        if v.v != vi:
            raise Unsupported("field of another variant")
        return v.fs[i]
    return unbox(ty.field_ty(vi, i), fld_term(adt_name(ty), ty.vname(vi), i, v.t))


def when(v, name, f):
    """v is that variant => f(payloads)."""
    c = z3.simplify(is_var(v, name))
    if z3.is_false(c):
        return T
    v = plain(v)
    ty = strip(v.ty)
    vi = ty.vindex(name)
    n = ty.nfields(vi)
    r = f(*[fld(v, i, name) for i in range(n)])
    return r if z3.is_true(c) else z3.Implies(c, r)


def isv(v, name, f):
    """v is that variant and f(payloads)."""
    c = z3.simplify(is_var(v, name))
    if z3.is_false(c):
        return F
    v = plain(v)
    ty = strip(v.ty)
    vi = ty.vindex(name)
    n = ty.nfields(vi)
    r = f(*[fld(v, i, name) for i in range(n)])
    return r if z3.is_true(c) else z3.And(c, r)


def s_(v):
    """String term of a value."""
    v = plain(v)
    if isinstance(v, (VStr, models.VFmt)):
        return v.e
    if isinstance(v, VRaw):
        return tos(v.t)
    if isinstance(v, VSym):
        # newtype around a string, if it is one
        raise Unsupported(f"string of {v.ty}")
    if isinstance(v, VAdt) and len(v.fs) == 1:
        return s_(v.fs[0])
    raise Unsupported(f"string of {type(v).__name__}")


def b_(v):
    v = plain(v)
    if isinstance(v, VBool):
        return v.e
    return tob(box(v))


def i_(v):
    v = plain(v)
    if isinstance(v, VInt):
        return v.e
    return toi(box(v))


def map_(v):
    """The SMT array behind a JSON map, an UntypedObject or a JSON object value."""
    v = plain(v)
    if isinstance(v, VMap):
        return v.arr
    if isinstance(v, (VAdt, VSym)):
        ty = strip(v.ty)
        if ty.path == "serde_json::Value":
            return map_(j_payload(E.prog, v, "Object"))
        return map_(fld(v, 0))
    if isinstance(v, VRaw):
        return tom(v.t)
    raise Unsupported(f"map of {type(v).__name__}")


def key(k):
    return box_str(pstr(k)) if isinstance(k, str) else box_str(k)


def at(m, k):
    """U term: entry of a map term."""
    return z3.simplify(z3.Select(m, key(k)))


def has(m, k):
    return at(m, k) != absent


def jv(t):
    return VSym(E.prog.ty_by_s("serde_json::Value"), t)


def jis(t, kind):
    return j_is(E.prog, jv(t), kind)


def jpay(t, kind):
    return j_payload(E.prog, jv(t), kind)


def jstr(t):
    return s_(jpay(t, "String"))


def jhas_str(m, k):
    """entry present and a JSON string"""
    t = at(m, k)
    return z3.And(t != absent, jis(t, "String"))


def json_string(e):
    return J(E.prog, "String", VStr(S(e)))


def same(a, b):
    return sym.eq(a, b)


def store(m, k, v):
    return z3.Store(m, key(k), v if z3.is_expr(v) else box(v))


def uf(name, *vs):
    return uf_term(name, *[v if z3.is_expr(v) else box(v) for v in vs])


def res_ok(t):
    """U term of a Result: is it Ok?"""
    return disc(t) == 0


_LET = {}


def let(t):
    """A name for a term (quantified facts about it then have usable patterns)."""
    c = _LET.get(t.get_id())
    if c is None:
        c = z3.Const(f"let~{len(_LET)}", t.sort())
        _LET[t.get_id()] = c
        AX.add(c, c == t)
    return c


def imp(a, b):
    return z3.Implies(a, b)


def parse_url(e):
    """(ok, url term) of parsing a string as URL."""
    t = models.parse_url_term(E.prog, e)
    return disc(t) == 0, fld_term("std::result::Result", "Ok", 0, t)


_EQ = [0]


def equal(a, b, depth=0):
    """Structural equality of two values of one type (sequences element for element, maps entry for entry)."""
    a, b = plain(a), plain(b)
    if depth > 6:
        return box(a) == box(b)
    d = depth + 1
    if isinstance(a, VAdt) and isinstance(b, VAdt):
        if a.v != b.v:
            return F
        return z3.And([T] + [equal(x, y, d) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, VTup) and isinstance(b, VTup):
        return z3.And([T] + [equal(x, y, d) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, VAdt) and isinstance(b, VSym) or isinstance(a, VSym) and isinstance(b, VAdt):
        x, y = (a, b) if isinstance(a, VAdt) else (b, a)
        vn = x.ty.vname(x.v)
        fs = [equal(f, fld(y, i, vn), d) for i, f in enumerate(x.fs)]
        return z3.And([is_var(y, vn)] + fs)
    if isinstance(a, VSym) and isinstance(b, VSym):
        ty = strip(a.ty)
        if a.t.eq(b.t):
            return T
        if ty.k == "adt" and (ty.path or "").startswith(("crate::", "std::option", "std::result")):
            cs = []
            if ty.is_enum:
                cs.append(disc_term(ty, a.t) == disc_term(ty, b.t))
            for vi in range(ty.nvariants):
                vn = ty.vname(vi)
                fs = [equal(fld(a, i, vn), fld(b, i, vn), d) for i in range(ty.nfields(vi))]
                if fs:
                    cs.append(imp(is_var(a, vn), z3.And(fs)))
            return z3.And([T] + cs)
    if isinstance(a, (VSeq, VSSeq)) or isinstance(b, (VSeq, VSSeq)):
        ta, tb = box(a), box(b)
        if ta.eq(tb):
            return T
        _EQ[0] += 1
        k = z3.Int(f"k~eq{_EQ[0]}")
        ety = a.ety if isinstance(a, (VSeq, VSSeq)) else b.ety
        x, y = sat_(ta, k), sat_(tb, k)
        return z3.And(slen_term(ta) == slen_term(tb),
                      z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < slen_term(ta)), equal(unbox(ety, x), unbox(ety, y), d))))
    if isinstance(a, VMap) and isinstance(b, VMap):
        return a.arr == b.arr
    if isinstance(a, VStr) and isinstance(b, VStr):
        return a.e == b.e
    return box(a) == box(b)


# ---------------------------------------------------------------- running a contract
class Path:
    def __init__(self, kind, st, ret, fin):
        self.kind, self.st, self.ret, self.fin = kind, st, ret, fin
        self.raw = None

    @property
    def trace(self):
        return self.st.trace

    def events(self, suffix):
        return [e for e in self.st.trace if e.name.split("<")[0].endswith(suffix)]


class Obligation:
    def __init__(self, props, fn_, name, hyp, goal, unmod, path_ix):
        self.props, self.fn, self.name, self.hyp, self.goal = props, fn_, name, hyp, goal
        self.unmod, self.path_ix = unmod, path_ix


class Ctx:
    def __init__(self, con, ex):
        self.con, self.ex, self.prog = con, ex, ex.prog
        self.args, self.paths, self.obs = [], [], []
        self.pre = []

    def _props(self, prop):
        return prop.split() if isinstance(prop, str) else list(prop)

    def ensure(self, prop, name, f, where=lambda p: True):
        """f(path) -> formula, for every way the function returns."""
        for i, p in enumerate(self.paths):
            if p.kind != "ret" or not where(p):
                continue
            g = f(p)
            if isinstance(g, bool):
                g = z3.BoolVal(g)
            self.obs.append(Obligation(self._props(prop), self.con.path, name, p.st.pc, g, p.st.unmod, i))

    def then(self, prop, name, paths, f, ok_first=False, conv=None, need=T):
        """Feeds the result to further functions (each on the previous one's result) and obliges f on the final path.
        With ok_first the result is a Result whose Ok is passed on; an Err must be impossible."""
        for i, p in enumerate(self.paths):
            if p.kind != "ret":
                continue
            v = p.ret
            if ok_first:
                g = is_var(v, "Ok")
                self.obs.append(Obligation(self._props(prop), self.con.path, name + " (conversion succeeds)", p.st.pc, imp(need, g), p.st.unmod, i))
                if z3.is_false(z3.simplify(g)):
                    continue
                v = fld(v, 0, "Ok")
            if conv:
                v = conv(v)
            todo = [(p.st, v)]
            for j, path in enumerate(paths):
                nxt = []
                for st, v in todo:
                    st = st.fork() if hasattr(st, "fork") else st
                    b = find_body(self.prog, resolve(path))
                    if b is None:
                        raise Lost(path)
                    for k, s2, w in run_fn(self.ex, str(path), v if isinstance(v, list) else [v], st, b["key"]):
                        w = models.snapshot(self.ex, s2, w) if k == "ret" else w
                        if k != "ret":
                            self.obs.append(Obligation(sorted(set(self._props(prop)) | {"C29"}), self.con.path, f"{name}: no panic: {w}", s2.pc, F, s2.unmod, i))
                        elif j == len(paths) - 1:
                            g = f(Path(k, s2, w, {}))
                            self.obs.append(Obligation(self._props(prop), self.con.path, name, s2.pc, g, s2.unmod, i))
                        else:
                            nxt.append((s2, w))
                todo = nxt

    def lemma(self, prop, name, hyps, goal):
        self.obs.append(Obligation(self._props(prop), self.con.path, name, hyps, goal, set(), 0))


def run_fn(ex, path, args, st, inst=None):
    """Executes a function (async ones to completion) -> list of (kind, state, value)."""
    rs = ex.run_body(inst or path, args, st)
    out = []
    for k, s, v in rs:
        if k == "ret" and isinstance(v, VClo) and v.ty.k == "coroutine":
            out += ex.run_body(v.ty.d["key"], [v, VOpaque("resume")], s)
        else:
            out.append((k, s, v))
    return out


def find_body(prog, path):
    b = prog.bodies.get(path)
    if b is not None:
        return b
    return prog.by_path.get(path)


def sym_args(ex, b, st):
    args = []
    for i in range(b["nargs"]):
        ty = ex.prog.types[b["locals"][i + 1]]
        args.append(sym_arg(ex, ty, f"arg{i}", st))
    return args


def sym_arg(ex, ty, nm, st):
    if ty.k == "ref" and ty.d["mut"] and ty.elem.k == "adt" and ty.elem.path == "std::fmt::Formatter":
        return ex.new_cell(st, models.VFmt(z3.Const(nm + "~text", STR)))
    if ty.k == "ref" and ty.d["mut"]:
        return ex.new_cell(st, unbox(ty.elem, z3.Const(nm, U)))
    return unbox(ty, z3.Const(nm, U))


class Lost(Exception):
    """The function a contract is anchored at is gone."""


def execute(con, prog, disabled=()):
    """-> (Ctx with obligations, info)"""
    E.prog = prog
    b = find_body(prog, resolve(con._path))
    if b is None:
        raise Lost(con.path)
    ms = models.Models()
    ex = exe.Exec(prog, ms)
    ex.deadline = time.process_time() + con.budget
    used = {}
    ms.contract_hook = lambda ex_, st, c, args: summary_hook(ex_, st, c, args, con.path, used, disabled, con.opaque)
    st = exe.State()
    c = Ctx(con, ex)
    c.used = used
    pre = getattr(con.fn, "args", None)
    c.args = con.fn.args(c, ex, b, st) if pre else sym_args(ex, b, st)
    c.init = [models.snapshot(ex, st, a) for a in c.args]
    argt = list(c.args)
    res = run_fn(ex, str(con.path), argt, st, b["key"])
    for k, s, v in res:
        fin = {}
        for i, a in enumerate(c.args):
            if isinstance(a, VMut):
                try:
                    fin[i] = ex.read_mut(s, a)
                except Unsupported:
                    pass
        c.paths.append(Path(k, s, models.snapshot(ex, s, v) if k == "ret" else v, fin))
        c.paths[-1].raw = v
    if not any(p.kind == "ret" for p in c.paths):
        raise Unsupported("no returning path")
    if con.panics:
        for i, p in enumerate(c.paths):
            if p.kind == "panic":
                c.obs.append(Obligation(sorted(set(con.props) | {"C29"}), con.path, f"no panic: {p.ret}", p.st.pc, F, p.st.unmod, i))
        if not any(p.kind == "panic" for p in c.paths):
            # every branch into a panic was refuted while the paths were enumerated
            c.obs.append(Obligation(["C29"], con.path, f"no panic: none of the {len(c.paths)} feasible paths panics", [], z3.BoolVal(True),
                                    set().union(*[p.st.unmod for p in c.paths]), 0))
    con.fn(c)
    return c


def summary_hook(ex, st, c, args, me, used, disabled, opaque=()):
    path = c.get("rpath") or c.get("path")
    if path in opaque:
        # an async function taken at its most general contract: any result, recorded as an effect
        C = models.Call(ex, st, c, args)
        return [(st, VFut("local:" + path, [models.snapshot(ex, st, a) for a in args], C.ret))]
    s = SUMMARIES.get(path)
    if s is None or path == me or path in disabled:
        return None
    C = models.Call(ex, st, c, args)
    snap = [models.snapshot(ex, st, a) for a in args]
    t = uf_term("summary~" + path, *[box(a) for a in snap])
    rt = C.ret
    fut = rt.k == "coroutine"
    if fut:
        b = ex.prog.bodies.get(rt.d["key"])
        if b is None:
            return None
        rt = ex.prog.types[b["locals"][0]]
    r = unbox(rt, t)
    if not AX.has(t, "summary"):
        for nm, f in s.post(snap, r):
            (AX.add_heavy if has_quant(f) else AX.add)(t, f)
    used[path] = used.get(path, 0) + 1
    if fut:
        f = VFut("summary~" + path, snap, C.ret)
        f.run = lambda ex_, st_: [("ret", st_, r)]
        return [(st, f)]
    return [(st, r)]


def discharge(ob, timeout=8000, cross=False, brief=False):
    """-> (verdict, solver, seconds, model text)"""
    t0 = time.time()
    g = z3.simplify(ob.goal)
    if z3.is_true(g):
        return "proved", "simplifier", 0.0, ""
    forms = list(ob.hyp) + [z3.Not(g)]
    s = z3.Solver()
    s.set("timeout", timeout)
    forms += AX.relevant(forms, heavy=True)
    s.add(*forms, *quant_axioms(forms))
    r = str(s.check())
    who = "z3"
    if r == "unknown" and brief:
        return "unknown", "z3 (short try)", time.time() - t0, ""
    if r == "unknown":
        r, s1 = split_solve(list(ob.hyp), z3.Not(g), time.time() + max(30, 4 * timeout / 1000))
        s = s1 or s
        who = "z3 (case split)"
    if r == "unknown" or (cross and r == "unsat"):
        r2 = solve_cvc5(s, max(5, timeout // 1000))
        if r == "unknown":
            r, who = r2, "cvc5"
        elif r2 == "unsat":
            who += "+cvc5"
        elif r2 == "sat":
            r, who = "unknown", "z3/cvc5 disagree"
    m = ""
    if r == "sat" and who.startswith("z3"):
        try:
            m = model_text(s.model())
        except Exception:
            pass
    return {"unsat": "proved", "sat": "failed", "unknown": "unknown"}[r], who, time.time() - t0, m


def vacuous(c):
    """Do the hypotheses and axioms behind the obligations contradict each other on every returning path?"""
    for p in c.paths:
        if p.kind != "ret":
            continue
        s = z3.Solver()
        s.set("timeout", 1500)
        s.set("rlimit", 300000)
        forms = list(p.st.pc)
        for ob in c.obs:
            if ob.hyp is p.st.pc:
                forms.append(z3.Or(ob.goal, z3.Not(ob.goal)))
        forms += AX.relevant(forms, heavy=True)
        s.add(*forms, *quant_axioms(forms))
        if str(s.check()) != "unsat":
            return False
    return True


def has_quant(f):
    seen, todo, n = set(), [f], 0
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            n += 1
        else:
            todo.extend(x.children())
    return n


def split_solve(hyp, neg, deadline, depth=0):
    """Case distinction over the disjunctions of the path condition."""
    forms = hyp + [neg]
    forms += AX.relevant(forms, heavy=True)
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*forms, *quant_axioms(forms))
    r = str(s.check()) if depth else "unknown"
    if r != "unknown":
        return r, s
    if time.time() > deadline or depth > 8:
        return "unknown", None
    flat = []
    for f in hyp:
        todo = [f]
        while todo:
            x = todo.pop()
            if z3.is_and(x):
                todo.extend(x.children())
            elif z3.is_not(x) and z3.is_or(x.arg(0)):
                todo.extend(z3.Not(y) for y in x.arg(0).children())
            else:
                flat.append(x)
    ors = [f for f in flat if z3.is_or(f) and f.num_args() <= 24]
    if not ors:
        return "unknown", None
    o = max(ors, key=lambda f: (has_quant(f), f.num_args()))
    rest = [f for f in flat if not f.eq(o)]
    for d in o.children():
        r, s = split_solve(rest + [d], neg, deadline, depth + 1)
        if r != "unsat":
            return r, s
    return "unsat", None


def model_text(m):
    out = []
    for d in m.decls():
        if d.arity() == 0 and d.range() != U:
            out.append(f"{d.name()} = {m[d]}")
    # strings that occur anywhere in the model: candidates for concrete inputs
    txt = m.sexpr()
    strs = sorted(set(re.findall(r'"((?:[^"]|"")*)"', txt)), key=len)[:60]
    return "\n".join(out[:80]) + "\nstrings: " + repr(strs) + "\n"
