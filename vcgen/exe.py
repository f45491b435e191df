"""Symbolic execution of MIR bodies: the verification-condition generator.

Each function is executed once for arbitrary arguments; every feasible control-flow path yields a
path condition, a result (or a panic) and a trace of the environment calls it made.  Loops over
sequences of unknown length are summarised (never unrolled); calls to functions under contract use
the contract; other local calls are inlined.
"""
import sys

import z3

from mir import TRANSPARENT, strip
from sym import *
import sym

sys.setrecursionlimit(20000)

MAX_PATHS = 4000
MAX_UNROLL = 40


class SymLoop(Exception):
    def __init__(self, ctx, cell):
        self.ctx, self.cell = ctx, cell


class Event:
    __slots__ = ("name", "args", "ret", "line")

    def __init__(self, name, args, ret, line=None):
        self.name, self.args, self.ret, self.line = name, args, ret, line

    def __repr__(self):
        return f"Event({self.name})"


def guards_in(v):
    if isinstance(v, VGuard):
        return [v.gid]
    if isinstance(v, (VAdt, VTup, VClo)):
        return [g for x in v.fs for g in guards_in(x)]
    return []


class State:
    __slots__ = ("pc", "ids", "cells", "trace", "unmod", "guards", "sections")

    def __init__(self):
        self.pc, self.ids, self.cells, self.trace, self.unmod = [], set(), {}, [], set()
        self.guards = {}      # live lock guards: id -> [heap cell, owning local, section index]
        self.sections = []    # critical sections so far: (heap cell, content when acquired, content when released) or "busy"

    def fork(self):
        s = State()
        s.pc, s.ids, s.cells, s.trace, s.unmod = list(self.pc), set(self.ids), dict(self.cells), list(self.trace), self.unmod
        s.guards, s.sections = dict(self.guards), list(self.sections)
        return s

    def own(self, v, cell):
        """v is now held by the local variable `cell`."""
        for g in guards_in(v):
            if g in self.guards:
                c, _, i = self.guards[g]
                self.guards[g] = (c, cell, i)

    def lock_key(self):
        return tuple(sorted(self.guards.items(), key=str)), tuple(id(x) for x in self.sections)

    def release(self, g):
        c, _, i = self.guards.pop(g)
        cell, before, _ = self.sections[i]
        self.sections[i] = (cell, before, self.cells[c])
        # from here on, others may change the content
        self.cells.pop(c)


    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f) or f.get_id() in self.ids:
            return self
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            self.ids.add(f.get_id())
            return self
        self.pc.append(f)
        self.ids.add(f.get_id())
        return self

    def note(self, name):
        if name not in self.unmod:
            self.unmod = self.unmod | {name}


def known(st, f):
    """True/False if f is literally decided by the path condition, else None."""
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    if f.get_id() in st.ids:
        return True
    g = f.arg(0) if z3.is_not(f) else z3.Not(f)
    if g.get_id() in st.ids:
        return False
    return None


def core_term(f):
    """The term an atom is about, or None."""
    if z3.is_not(f):
        f = f.arg(0)
    if z3.is_eq(f):
        a, b = f.arg(0), f.arg(1)
        if is_lit(a):
            a, b = b, a
        if not is_lit(b):
            return None
    elif z3.is_app(f) and f.num_args() == 2 and f.decl().kind() in (z3.Z3_OP_SEQ_CONTAINS, z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX):
        a = f.arg(0) if f.decl().kind() == z3.Z3_OP_SEQ_CONTAINS else f.arg(1)
    else:
        return None
    if z3.is_app(a) and a.decl().name() in ("toS", "toI"):
        return a
    while z3.is_app(a) and a.num_args() == 1 and (a.decl().name() in ("disc", "toB") or a.decl().name().startswith("fld~")):
        a = a.arg(0)
    if z3.is_app(a) and (a.decl().kind() == z3.Z3_OP_SELECT or a.decl().name().startswith(("uf~", "arg"))):
        return a
    return None


def is_lit(e):
    return z3.is_string_value(e) or z3.is_int_value(e) or e.eq(absent)


_noabs = {}


def noabs(f):
    r = _noabs.get(f.get_id())
    if r is None:
        g = f.arg(0) if z3.is_not(f) else f
        if z3.is_eq(g) and (g.arg(0).eq(absent) or g.arg(1).eq(absent)):
            x = g.arg(1) if g.arg(0).eq(absent) else g.arg(0)
            r = set()
            for c in x.children():
                r |= AX.subterms(c)
        else:
            r = AX.subterms(f)
        _noabs[f.get_id()] = (f, r)
        return r
    return r[1]


def independent(st, f):
    """The condition is about a term no other condition mentions, so both outcomes are possible.
    (A wrong yes only keeps an infeasible path, which no obligation can fail on.)"""
    t = core_term(f)
    if t is None:
        return False
    if has_join(t):
        return False
    i = t.get_id()
    strings = t.sort() == STR and z3.is_eq(f.arg(0) if z3.is_not(f) else f)
    for g in st.pc:
        if i in noabs(g):
            if strings:
                # only compared with constants so far: any other constant (or none) is possible
                h = g.arg(0) if z3.is_not(g) else None
                if h is not None and z3.is_eq(h) and (h.arg(0).get_id() == i and is_lit(h.arg(1)) or h.arg(1).get_id() == i and is_lit(h.arg(0))):
                    continue
            return False
    return True


def has_join(t):
    for x in AX.subterms(t):
        if x in JOINS:
            return True
    return False


JOINS = set()


class Frame:
    __slots__ = ("body", "fid", "headers", "line")

    def __init__(self, body, fid, headers):
        self.body, self.fid, self.headers, self.line = body, fid, headers, 0


def succs(bl):
    t = bl["t"]
    if t == "switch":
        return [b for _, b in bl["cases"]] + [bl["otherwise"]]
    if bl.get("to") is not None:
        return [bl["to"]]
    return []


def loop_info(body):
    """Headers of natural loops -> set of blocks; live-in locals at each header."""
    if "_loops" in body:
        return body["_loops"]
    blocks = body["blocks"]
    color, back, post = {}, [], []
    stack = [(0, iter(succs(blocks[0])))]
    color[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if blocks[s] is None:
                continue
            if s not in color:
                color[s] = 1
                stack.append((s, iter(succs(blocks[s]))))
                break
            if color[s] == 1:
                back.append((b, s))
        else:
            color[b] = 2
            post.append(b)
            stack.pop()
    heads = {h for _, h in back}
    body["_loops"] = heads
    body["_rpo"] = {b: i for i, b in enumerate(reversed(post))}
    return heads


def live_in(body):
    if "_live" in body:
        return body["_live"]
    blocks = body["blocks"]
    use, deff = {}, {}

    def pu(p, u, d):
        if p[0] not in d:
            u.add(p[0])
        for e in p[1]:
            if e[0] == "i" and e[1] not in d:
                u.add(e[1])

    def ou(o, u, d):
        if o.get("o") in ("copy", "move"):
            pu(o["p"], u, d)

    for i, bl in enumerate(blocks):
        if bl is None:
            continue
        u, d = set(), set()
        for s in bl["s"]:
            if s[0] == "=":
                r = s[2]
                for k in ("a", "b"):
                    if isinstance(r.get(k), dict):
                        ou(r[k], u, d)
                if "p" in r:
                    pu(r["p"], u, d)
                for o in r.get("ops", []):
                    ou(o, u, d)
                if s[1][1]:
                    pu(s[1], u, d)
                else:
                    d.add(s[1][0])
            elif s[0] == "dead":
                d.add(s[1])
            elif s[0] == "sd":
                pu(s[1], u, d)
        for k in ("a", "c"):
            if k in bl:
                ou(bl[k], u, d)
        if bl["t"] == "call":
            ou(bl["f"], u, d)
            for a in bl["args"]:
                ou(a, u, d)
            if bl["dst"][1]:
                pu(bl["dst"], u, d)
            else:
                d.add(bl["dst"][0])
        if bl["t"] == "return" and 0 not in d:
            u.add(0)
        use[i], deff[i] = u, d
    live = {i: set(use[i]) for i in use}
    ch = True
    while ch:
        ch = False
        for i in sorted(use, reverse=True):
            out = set()
            for s in succs(blocks[i]):
                if s in live:
                    out |= live[s]
            n = use[i] | (out - deff[i])
            if n != live[i]:
                live[i] = n
                ch = True
    body["_live"] = live
    return live


class Exec:
    def __init__(self, prog, models, contracts=None):
        self.prog, self.models = prog, models
        self.contracts = contracts or {}
        self.fid = 0
        self.loopctx = []
        self.gens = []
        self.npaths = 0
        self.depth = 0
        self.inlined = set()
        self.externals = {}
        self.used_contracts = set()
        self.lines = set()
        self.deadline = None
        self.binders = None
        self.joining = True

    # ------------------------------------------------------------ feasibility
    def feasible(self, st, extra=None, timeout=1500):
        if extra is not None:
            k = known(st, extra)
            if k is False:
                return False
            if independent(st, extra):
                return True
        f = st.pc + ([extra] if extra is not None else [])
        return sym.feasible(f, timeout) != "unsat"

    def branch(self, st, conds):
        """conds: list of (formula, tag); returns the feasible (state, tag)."""
        out = []
        cs = []
        for f, tag in conds:
            f = z3.simplify(f)
            if z3.is_false(f):
                continue
            k = known(st, f)
            if k is True or z3.is_true(f):
                return [(st, tag)]
            if k is False:
                continue
            cs.append((f, tag))
        if len(cs) == 1:
            st.assume(cs[0][0])
            return [(st, cs[0][1])]
        for i, (f, tag) in enumerate(cs):
            # the last remaining alternative is feasible if nothing else was
            if i == len(cs) - 1 and not out:
                st.assume(f)
                return [(st, tag)]
            if self.feasible(st, f):
                s = st.fork()
                s.assume(f)
                out.append((s, tag))
        self.npaths += max(0, len(out) - 1)
        if self.npaths > MAX_PATHS:
            raise Unsupported("too many paths")
        if self.deadline is not None:
            import time
            if time.process_time() > self.deadline:
                raise Unsupported("time budget exceeded")
        return out

    # ------------------------------------------------------------ places
    def read_cell(self, st, cell):
        if cell not in st.cells:
            raise Unsupported(f"read of uninitialised {cell}")
        return st.cells[cell]

    def get1(self, v, e):
        k = e[0]
        if k == "f":
            _, var, i, ty = e
            if isinstance(v, VAdt):
                if var is not None and v.ty.is_enum and v.v != var:
                    raise Unsupported("field of another variant")
                x = v.fs[i]
                if isinstance(x, VRaw) and ty is not None:
                    return unbox(ty, x.t)
                return x
            if isinstance(v, (VTup, VClo)):
                return v.fs[i]
            if isinstance(v, VSym):
                vi = var if var is not None else 0
                return unbox(ty, fld_term(adt_name(v.ty), v.ty.vname(vi), i, v.t))
            if isinstance(v, VOpaque):
                return VOpaque(v.what)
            if isinstance(v, VRef):
                return self.get1(v.x, e)
            if isinstance(v, VRaw):
                return unbox(ty, fn(f"rawfld~{i}", U, U)(v.t))
            if isinstance(v, VIter) and isinstance(v.base, tuple) and v.base[0] == "range":
                return VInt(v.base[1 + i])
            raise Unsupported(f"field of {type(v).__name__}")
        if k == "key":
            return unbox(e[2], z3.Select(v.arr, e[1]))
        if k == "i":
            v = deref(v)
            i = e[1].e
            if isinstance(v, VSeq):
                if z3.is_int_value(i):
                    return v.xs[i.as_long()]
                v = VSSeq(v.ety, box(v))
            if isinstance(v, VSSeq):
                return unbox(v.ety, sat_(v.t, i))
            if isinstance(v, VStr):
                return VInt(z3.StrToCode(z3.SubString(v.e, i, 1)))
            raise Unsupported("index")
        if k == "c":
            v = deref(v)
            _, off, _, fe = e
            n = self.length(v)
            idx = z3.simplify(n - off if fe else z3.IntVal(off))
            return self.get1(v, ("i", VInt(idx)))
        if k == "s":
            v = deref(v)
            _, a, b, fe = e
            if isinstance(v, VSeq):
                return VSeq(v.ety, v.xs[a:len(v.xs) - b] if fe else v.xs[a:b])
            if isinstance(v, VStr):
                n = z3.Length(v.e)
                end = n - b if fe else z3.IntVal(b)
                return VStr(z3.SubString(v.e, a, end - a))
            if isinstance(v, VSSeq):
                n = slen_term(v.t)
                end = n - b if fe else z3.IntVal(b)
                return self.subseq(v, z3.IntVal(a), z3.simplify(end))
            raise Unsupported("subslice")
        raise Unsupported(f"projection {k}")

    def subseq(self, v, a, b):
        t = fn("subseq", U, INT, INT, U)(v.t, a, b)
        if not AX.has(t, "subseq"):
            AX.add(t, z3.Implies(z3.And(a >= 0, a <= b), slen(t) == b - a))
            i = z3.Int("i~ss")
            AX.add(t, forall([i], z3.Implies(z3.And(i >= 0, i < slen(t)), sat_(t, i) == sat_(v.t, a + i)), sat_(t, i)))
        return VSSeq(v.ety, t)

    def get(self, st, v, path):
        for e in path:
            if e[0] == "*":
                if isinstance(v, VMut):
                    v = self.read_mut(st, v)
                elif isinstance(v, VRef):
                    v = v.x
                continue
            v = self.get1(v, e)
        return v

    def expand(self, v):
        """A VSym struct/tuple (or known variant) as a VAdt."""
        ty = v.ty
        if ty.k == "tuple":
            return VTup([unbox(t, fld_term(adt_name(ty), "0", i, v.t)) for i, t in enumerate(ty.elems)])
        if ty.is_enum:
            raise Unsupported("write into a symbolic enum")
        n = ty.nfields(0)
        if n is None:
            raise Unsupported(f"write into {ty.s}")
        fs = []
        for i in range(n):
            ft = ty.field_ty(0, i)
            t = fld_term(adt_name(ty), ty.vname(0), i, v.t)
            fs.append(unbox(ft, t) if ft is not None else VRaw(t))
        return VAdt(ty, 0, fs)

    def set(self, st, v, path, new):
        if not path:
            return new
        if isinstance(v, VUninit):
            return new
        e, rest = path[0], path[1:]
        if e[0] == "*":
            if isinstance(v, VRef):
                return VRef(self.set(st, v.x, rest, new))
            if isinstance(v, VMut):
                self.write_mut(st, VMut(v.cell, v.path + tuple(rest)), new)
                return v
            return self.set(st, v, rest, new)
        if e[0] == "f":
            _, var, i, ty = e
            if isinstance(v, VUninit):
                raise Unsupported("write into uninitialised")
            if isinstance(v, VSym):
                if v.ty.is_enum and var is not None:
                    n = v.ty.nfields(var)
                    fs = []
                    for j in range(n):
                        ft = v.ty.field_ty(var, j) or (ty if j == i else None)
                        t = fld_term(adt_name(v.ty), v.ty.vname(var), j, v.t)
                        fs.append(unbox(ft, t) if ft is not None else VRaw(t))
                    v = VAdt(v.ty, var, fs)
                else:
                    v = self.expand(v)
            if isinstance(v, VOpaque):
                return v
            fs = list(v.fs)
            cur = fs[i]
            if isinstance(cur, VRaw) and ty is not None:
                cur = unbox(ty, cur.t)
            fs[i] = self.set(st, cur, rest, new)
            if isinstance(v, VAdt):
                return VAdt(v.ty, v.v, fs)
            if isinstance(v, VTup):
                return VTup(fs)
            return VClo(v.ty, fs)
        if e[0] == "key":
            cur = unbox(e[2], z3.Select(v.arr, e[1])) if rest else None
            return VMap(z3.Store(v.arr, e[1], box(self.set(st, cur, rest, new))), v.kty, v.vty)
        if e[0] in ("i", "c"):
            if isinstance(v, VSeq):
                if e[0] == "i":
                    if not z3.is_int_value(e[1].e):
                        raise Unsupported("write at symbolic index")
                    idx = e[1].e.as_long()
                else:
                    idx = len(v.xs) - e[1] if e[3] else e[1]
                xs = list(v.xs)
                xs[idx] = self.set(st, xs[idx], rest, new)
                return VSeq(v.ety, xs)
            raise Unsupported("indexed write")
        raise Unsupported(f"write through {e[0]}")

    def read_mut(self, st, m):
        return self.get(st, self.read_cell(st, m.cell), m.path)

    def write_mut(self, st, m, new):
        if m.path:
            st.cells[m.cell] = self.set(st, self.read_cell(st, m.cell), m.path, new)
        else:
            st.cells[m.cell] = new

    def loc(self, st, F, place):
        """('cell', cell, path) or ('val', value)."""
        cell, path, val = (F.fid, place[0]), (), None
        isval = False
        var = None
        for e in place[1]:
            k = e[0]
            if k == "*":
                v = self.get(st, val, path) if isval else self.get(st, self.read_cell(st, cell), path)
                if isinstance(v, VMut):
                    cell, path, isval = v.cell, v.path, False
                elif isinstance(v, VRef):
                    val, path, isval = v.x, (), True
                # otherwise: an owning pointer, transparent
            elif k == "d":
                var = e[1]
                continue
            elif k == "f":
                path = path + (("f", var, e[1], self.prog.types[e[2]]),)
            elif k == "i":
                path = path + (("i", self.read_cell(st, (F.fid, e[1]))),)
            elif k == "c":
                path = path + (("c", e[1], e[2], e[3]),)
            elif k == "s":
                path = path + (("s", e[1], e[2], e[3]),)
            elif k == "oc":
                pass
            else:
                raise Unsupported("projection")
            var = None
        if isval:
            return ("val", val, path)
        return ("cell", cell, path)

    def read(self, st, F, place):
        l = self.loc(st, F, place)
        if l[0] == "val":
            return self.get(st, l[1], l[2])
        return self.get(st, self.read_cell(st, l[1]), l[2])

    def write(self, st, F, place, v):
        if not place[1]:
            st.cells[(F.fid, place[0])] = v
            if st.guards:
                st.own(v, (F.fid, place[0]))
            return
        l = self.loc(st, F, place)
        if l[0] == "val":
            raise Unsupported("write through a shared reference")
        self.write_mut(st, VMut(l[1], l[2]), v)
        if st.guards:
            st.own(v, l[1])

    # ------------------------------------------------------------ operands
    def operand(self, st, F, o):
        if o["o"] in ("copy", "move"):
            return self.read(st, F, o["p"])
        if o["o"] == "const":
            return self.const(o)
        raise Unsupported("operand")

    def const(self, o):
        if "fn" in o:
            return VFn(o["fn"])
        ty = self.prog.types[o["t"]]
        v = o.get("v")
        if v == "bytes":
            return VRef(VStr(strval(o["b"])))
        if v == "int":
            return self.int_const(ty, int(o["i"]))
        if v == "zst":
            if ty.k == "closure":
                return VClo(ty, ())
            if ty.k == "tuple":
                return UNIT
            if ty.k == "adt" and ty.d["ak"] == "struct":
                return VAdt(ty, 0, ())
            if ty.k == "fndef":
                return VFn(ty.d["callee"])
            return VSym(ty, z3.Const("zst~" + ty.s, U))
        if v == "static":
            return VRef(VSym(strip(ty), z3.Const("static~" + o["path"], U)))
        if v in ("ref", "mem"):
            x = self.mem(o["to"], ty)
            if x is not None:
                return VRef(x) if v == "ref" else x
        if ty.k == "adt" and "def" in o:
            pass
        name = o.get("def") or "anon"
        if "dargs" in o:
            name += "<" + ",".join(self.prog.types[a].s if isinstance(a, int) else a for a in o["dargs"]) + ">"
        return unbox(ty, z3.Const("const~" + name, U))

    def mem(self, m, ty):
        v = m["v"]
        if v == "bytes":
            # either the referent of a &str/&[u8], or a byte array
            x = VStr(strval(m["b"]))
            return VRef(x) if ty is not None and ty.k == "ref" and ty.elem.k == "ref" else x
        if v == "int":
            t = ty
            while t is not None and t.k == "ref":
                t = t.elem
            return self.int_const(t, int(m["i"]))
        if v == "ref":
            x = self.mem(m["to"], None)
            return None if x is None else VRef(x)
        if v == "seq":
            et = self.prog.types[m["et"]]
            xs = []
            for e in m["es"]:
                x = self.mem(e, None)
                if x is None:
                    return None
                if isinstance(x, VStr) and et.k == "ref":
                    x = VRef(x)
                xs.append(x)
            return VSeq(et, xs)
        if v == "tuple":
            xs = [self.mem(e, None) for e in m["es"]]
            return None if any(x is None for x in xs) else VTup(xs)
        return None

    def int_const(self, ty, i):
        if ty is None or ty.k == "int":
            if ty is not None and ty.d["signed"]:
                b = ty.d["bits"]
                if i >= 2 ** (b - 1):
                    i -= 2 ** b
            return VInt(i)
        if ty.k == "bool":
            return VBool(i != 0)
        if ty.k == "char":
            return VInt(i)
        if ty.is_enum:
            for k in range(ty.nvariants):
                if ty.discr(k) == i and not ty.nfields(k):
                    return VAdt(ty, k, ())
        if ty.k == "adt":
            return VSym(ty, z3.Const(f"scalar~{ty.s}~{i}", U))
        raise Unsupported(f"scalar constant of {ty.s}")

    def length(self, v):
        v = deref(v)
        if isinstance(v, VSeq):
            return z3.IntVal(len(v.xs))
        if isinstance(v, VSSeq):
            return slen_term(v.t)
        if isinstance(v, VStr):
            return z3.Length(v.e)
        raise Unsupported("length")

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, F, r):
        k = r["r"]
        if k == "use":
            return self.operand(st, F, r["a"])
        if k == "ref":
            l = self.loc(st, F, r["p"])
            if r["mut"]:
                if l[0] == "cell":
                    return VMut(l[1], l[2])
                x = self.get(st, l[1], l[2])
                return self.new_cell(st, x)
            x = self.get(st, l[1], l[2]) if l[0] == "val" else self.get(st, self.read_cell(st, l[1]), l[2])
            return VRef(x)
        if k == "agg":
            ops = [self.operand(st, F, o) for o in r["ops"]]
            a = r["k"]
            if a == "tuple":
                return VTup(ops)
            if a == "adt":
                ty = self.prog.types[r["t"]]
                if ty.path in TRANSPARENT and len(ops) == 1:
                    return ops[0]
                if ty.path in ("std::ops::Range", "std::ops::RangeInclusive") and len(ops) >= 2:
                    return VIter(("range", ops[0].e, ops[1].e if ty.path.endswith("Range") else ops[1].e + 1))
                if ty.path == "std::borrow::Cow":
                    x = ops[0]
                    return deref(x)
                return VAdt(ty, r["v"], ops)
            if a == "array":
                et = self.prog.types[r["t"]]
                if is_u8(et):
                    return self.bytes_of(ops)
                return VSeq(et, ops)
            if a in ("closure", "coroutine"):
                return VClo(self.prog.types[r["t"]], ops)
            raise Unsupported("aggregate")
        if k == "discr":
            return VInt(self.discriminant(self.read(st, F, r["p"])))
        if k == "bin":
            return self.binop(r["op"], self.operand(st, F, r["a"]), self.operand(st, F, r["b"]), r)
        if k == "un":
            a = self.operand(st, F, r["a"])
            if r["op"] == "Not":
                if isinstance(a, VBool):
                    return VBool(z3.simplify(z3.Not(a.e)))
            if r["op"] == "Neg":
                return VInt(-a.e)
            if r["op"] == "PtrMetadata":
                if isinstance(a, VMut):
                    a = self.read_mut(st, a)
                return VInt(self.length(a))
            raise Unsupported(f"unop {r['op']}")
        if k == "cast":
            a = self.operand(st, F, r["a"])
            ty = self.prog.types[r["t"]]
            if isinstance(a, VBool) and ty.k == "int":
                return VInt(z3.If(a.e, 1, 0))
            if isinstance(a, VInt) and ty.k == "int" and "IntToInt" in r["k"]:
                b = ty.d["bits"]
                e = z3.simplify(a.e)
                if z3.is_int_value(e):
                    x = e.as_long() % (2 ** b)
                    if ty.d["signed"] and x >= 2 ** (b - 1):
                        x -= 2 ** b
                    return VInt(x)
                if b >= 64:
                    return a
                return VInt(e % (2 ** b)) if not ty.d["signed"] else VInt(e)
            if isinstance(a, VAdt) and ty.k == "int":
                return VInt(a.ty.discr(a.v))
            if isinstance(a, VSym) and ty.k == "int":
                return VInt(disc_term(a.ty, a.t))
            return a
        if k == "repeat":
            a = self.operand(st, F, r["a"])
            n = r["n"]
            if n is None or n > 4096:
                raise Unsupported("repeat")
            if isinstance(a, VInt) and z3.is_int_value(a.e):
                return VStr(bstr([a.e.as_long() % 256] * n))
            return VSeq(None, [a] * n)
        raise Unsupported(f"rvalue {k}")

    def bytes_of(self, ops):
        vals = [z3.simplify(o.e) for o in ops]
        if all(z3.is_int_value(v) for v in vals):
            return VStr(bstr([v.as_long() for v in vals]))
        parts = [z3.StringVal("")]
        for v in vals:
            parts.append(z3.StrFromCode(v))
        return VStr(z3.Concat(*parts) if len(parts) > 1 else parts[0])

    def discriminant(self, v):
        v = deref(v)
        if isinstance(v, VAdt):
            return z3.IntVal(v.ty.discr(v.v) if v.ty.is_enum else 0)
        if isinstance(v, VSym):
            return disc_term(v.ty, v.t)
        if isinstance(v, VRaw):
            return disc(v.t)
        if isinstance(v, VInt):
            return v.e
        raise Unsupported(f"discriminant of {type(v).__name__}")

    def binop(self, op, a, b, r):
        if isinstance(a, VBool) and isinstance(b, VBool):
            x, y = a.e, b.e
            if op == "Eq":
                return VBool(x == y)
            if op == "Ne":
                return VBool(x != y)
            if op in ("BitAnd",):
                return VBool(z3.And(x, y))
            if op in ("BitOr",):
                return VBool(z3.Or(x, y))
            if op in ("BitXor",):
                return VBool(z3.Xor(x, y))
            raise Unsupported("bool op " + op)
        if isinstance(a, (VAdt, VSym)) and isinstance(b, (VAdt, VSym, VInt)):
            a, b = VInt(self.discriminant(a)), VInt(self.discriminant(b))
        if not (isinstance(a, VInt) and isinstance(b, VInt)):
            raise Unsupported(f"binop {op} {type(a).__name__}")
        x, y = a.e, b.e
        m = {"Eq": lambda: VBool(x == y), "Ne": lambda: VBool(x != y), "Lt": lambda: VBool(x < y),
             "Le": lambda: VBool(x <= y), "Gt": lambda: VBool(x > y), "Ge": lambda: VBool(x >= y),
             "Add": lambda: VInt(x + y), "Sub": lambda: VInt(x - y), "Mul": lambda: VInt(x * y),
             "AddUnchecked": lambda: VInt(x + y), "SubUnchecked": lambda: VInt(x - y),
             "Div": lambda: VInt(x / y), "Rem": lambda: VInt(x % y)}
        if op in m:
            v = m[op]()
            v.e = z3.simplify(v.e)
            return v
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked", "BitAnd", "BitOr", "BitXor"):
            x, y = z3.simplify(x), z3.simplify(y)
            if z3.is_int_value(x) and z3.is_int_value(y):
                x, y = x.as_long(), y.as_long()
                v = {"Shl": lambda: x << y, "Shr": lambda: x >> y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y}[op.replace("Unchecked", "")]()
                if 0 <= v < 2 ** 31:
                    return VInt(v)
        if op == "Cmp":
            return VInt(z3.If(x < y, -1, z3.If(x == y, 0, 1)))
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            f = {"A": x + y, "S": x - y, "M": x * y}[op[0]]
            f = z3.simplify(f)
            ov = z3.Or(f < 0, f >= 2 ** 64)
            return VTup([VInt(f), VBool(z3.simplify(ov))])
        raise Unsupported("binop " + op)

    def new_cell(self, st, v):
        self.fid += 1
        c = ("tmp", self.fid)
        st.cells[c] = v
        return VMut(c, ())

    # ------------------------------------------------------------ running
    def run_body(self, key, args, st):
        """-> list of (kind, state, value); kind 'ret' or 'panic'."""
        body = self.prog.bodies.get(key)
        if body is None:
            raise Unsupported(f"no body for {key}")
        self.fid += 1
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("call depth")
        F = Frame(body, self.fid, loop_info(body))
        if body["krate"].startswith("openid4vp"):
            self.inlined.add(body["path"])
        if len(args) != body["nargs"]:
            raise Unsupported(f"arity of {key}: {len(args)} for {body['nargs']}")
        for i, a in enumerate(args):
            if isinstance(a, VRaw) or isinstance(a, VRef) and isinstance(a.x, VRaw):
                # an element of a dependency's iterator: its type is the one the parameter declares
                ty = self.prog.types[body["locals"][i + 1]]
                if isinstance(a, VRaw):
                    a = unbox(ty, a.t)
                elif ty.k == "ref":
                    a = VRef(unbox(ty.elem, a.x.t))
            st.cells[(F.fid, i + 1)] = a
            if st.guards:
                st.own(a, (F.fid, i + 1))
        self.loopctx.append(None)
        npc0, ntr0 = len(st.pc), len(st.trace)
        try:
            res = self.run_from(F, st, 0, None, frozenset())
        finally:
            self.depth -= 1
            self.loopctx.pop()
        out = []
        for kind, s, v in res:
            if kind == "loop":
                raise Unsupported("stray loop")
            fid = F.fid
            for c in [c for c in s.cells if c[0] == fid]:
                # a cell still referenced by a &mut in the result cannot exist (borrow rules)
                del s.cells[c]
            out.append((kind, s, v))
        return self.join(out, npc0, ntr0) if len(out) > 1 and self.joining else out

    def join_states(self, F, sts, bb, npc, force=False):
        """Merges states that reach the same block with the same shape of live data."""
        if bb in F.headers and not force:
            return sts
        live = live_in(F.body).get(bb)
        if live is None:
            return sts
        fid = F.fid
        groups = {}
        for st in sts:
            keep = {(fid, l) for l in live} | {c for c in st.cells if c[0] != fid}
            # locals still reachable through a mutable reference
            todo = [st.cells[c] for c in keep if c in st.cells]
            while todo:
                v = todo.pop()
                if isinstance(v, VMut):
                    if v.cell not in keep and v.cell in st.cells:
                        keep.add(v.cell)
                        todo.append(st.cells[v.cell])
                elif isinstance(v, VRef):
                    todo.append(v.x)
                elif isinstance(v, (VAdt, VTup, VClo)):
                    todo.extend(v.fs)
                elif isinstance(v, VIter):
                    todo.extend(x[1] for x in v.stages if isinstance(x[1], V))
            cells = {c: v for c, v in st.cells.items() if c in keep}
            k = (tuple(id(e) for e in st.trace), st.lock_key(), tuple(sorted((str(c), cell_key(v)) for c, v in cells.items())))
            groups.setdefault(k, []).append((st, cells))
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0][0])
                continue
            m, rest = self.join_pc([st for st, _ in g], npc)
            m.cells = {c: merge_val([cs[c] for _, cs in g], rest) for c in g[0][1]}
            out.append(m)
        return out

    def join_pc(self, sts, npc):
        s0 = sts[0]
        m = State()
        m.pc, m.trace = list(s0.pc[:npc]), list(s0.trace)
        m.guards, m.sections = dict(s0.guards), list(s0.sections)
        m.ids = {f.get_id() for f in m.pc}
        m.unmod = frozenset().union(*[s.unmod for s in sts])
        common = set.intersection(*[{f.get_id() for f in s.pc[npc:]} for s in sts])
        for f in s0.pc[npc:]:
            if f.get_id() in common:
                m.assume(f)
        rest = []
        for s in sts:
            fs = [f for f in s.pc[npc:] if f.get_id() not in common]
            rest.append(z3.And(fs) if len(fs) != 1 else fs[0])
        d = z3.simplify(z3.Or(rest))
        m.assume(d)
        return m, rest

    # ------------------------------------------------------------ joining paths at a return
    def join(self, out, npc, ntr):
        """Merges the results of a call that have the same shape and the same effects."""
        groups = {}
        for r in out:
            kind, s, v = r
            k = (kind, tuple(id(e) for e in s.trace), s.lock_key(), skeleton(v) if kind == "ret" else str(v),
                 tuple(sorted((str(c), id(x)) for c, x in s.cells.items())))
            groups.setdefault(k, []).append(r)
        if len(groups) == len(out):
            return out
        res = []
        for rs in groups.values():
            if len(rs) == 1:
                res.append(rs[0])
                continue
            kind, s0, v0 = rs[0]
            m, rest = self.join_pc([s for _, s, _ in rs], npc)
            m.cells = dict(s0.cells)
            v = merge_val([v for _, _, v in rs], rest) if kind == "ret" else v0
            res.append((kind, m, v))
        return res

    def run_from(self, F, st0, bb0, stop, inside):
        """Explores all paths from bb0.  inside: loop headers being iterated concretely."""
        res = []
        stack = [(st0, bb0, True)]
        blocks = F.body["blocks"]
        rpo = F.body["_rpo"]
        npc0 = len(st0.pc)
        while stack:
            if len(stack) > 1 and self.joining:
                k = min(range(len(stack)), key=lambda i: (rpo[stack[i][1]], i))
                here = [x for x in stack if x[1] == stack[k][1] and not x[2]]
                if len(here) > 1:
                    bb = here[0][1]
                    stack = [x for x in stack if not (x[1] == bb and not x[2])]
                    stack.extend((s, bb, False) for s in self.join_states(F, [x[0] for x in here], bb, npc0))
                    k = len(stack) - 1
                st, bb, first = stack.pop(k)
            else:
                st, bb, first = stack.pop()
            if bb == stop and not first:
                res.append(("loop", st, None))
                continue
            if bb in F.headers and not (first and bb == stop) and bb not in inside:
                res.extend(self.do_loop(F, st, bb, stop, inside))
                continue
            bl = blocks[bb]
            try:
                for s in bl["s"]:
                    if s[0] == "=":
                        self.write(st, F, s[1], self.rvalue(st, F, s[2]))
                    elif s[0] == "dead":
                        st.cells.pop((F.fid, s[1]), None)
                    elif s[0] == "sd":
                        v = self.read(st, F, s[1])
                        if isinstance(v, VAdt):
                            self.write(st, F, s[1], VAdt(v.ty, s[2], v.fs))
                        else:
                            raise Unsupported("set discriminant")
            except Unsupported as e:
                if not getattr(e, "where", None):
                    e.where = f"{F.body['path']} line {bl['line']}"
                raise
            if F.body["krate"].startswith("openid4vp"):
                self.lines.add((F.body["span"].split(":")[0], bl["line"]))
            t = bl["t"]
            if t == "drop" and st.guards:
                # the drop is of what is still there: a guard moved elsewhere has another owner by now
                cell = (F.fid, bl["p"][0])
                for g in [g for g, (_, o, _) in st.guards.items() if o == cell]:
                    if cell not in st.cells or g in guards_in(self.read(st, F, bl["p"])):
                        st.release(g)
            if t == "goto" or t == "drop":
                stack.append((st, bl["to"], False))
            elif t == "switch":
                d = self.operand(st, F, bl["a"])
                if isinstance(d, VBool):
                    cond = d.e
                    cs = []
                    seen = []
                    for val, to in bl["cases"]:
                        f = cond if int(val) != 0 else z3.Not(cond)
                        cs.append((f, to))
                        seen.append(int(val) != 0)
                    if True not in seen:
                        cs.append((cond, bl["otherwise"]))
                    elif False not in seen:
                        cs.append((z3.Not(cond), bl["otherwise"]))
                else:
                    cs = []
                    e = d.e
                    for val, to in bl["cases"]:
                        v = int(val)
                        if v >= 2 ** 63:
                            v -= 2 ** 64 if v < 2 ** 64 else 2 ** 128
                        cs.append((e == v, to))
                    oth = blocks[bl["otherwise"]]
                    if not (oth is not None and oth["t"] == "unreachable" and not oth["s"]):
                        cs.append((z3.And([z3.Not(f) for f, _ in cs]), bl["otherwise"]))
                for s, to in reversed(self.branch(st, cs)):
                    stack.append((s, to, False))
            elif t == "return":
                res.append(("ret", st, st.cells.get((F.fid, 0), UNIT)))
            elif t == "call":
                F.line = bl["line"]
                try:
                    f = self.operand(st, F, bl["f"])
                    args = [self.operand(st, F, a) for a in bl["args"]]
                    rs = self.call_value(st, f, args, F, bl)
                except Unsupported as e:
                    if not getattr(e, "where", None):
                        e.where = f"{F.body['path']} line {bl['line']}"
                    raise
                for kind, s, v in reversed(rs):
                    if kind == "panic":
                        res.append((kind, s, v))
                    elif kind == "skip":
                        # the generic element of the loop being summarised is filtered out
                        if not self.gens or self.gens[-1] != (F.fid, stop):
                            raise Unsupported("filtering iterator in a summarised loop")
                        res.append(("loop", s, None))
                    elif bl["to"] is None:
                        res.append(("panic", s, f"diverging call at {F.body['path']}:{bl['line']}"))
                    else:
                        self.write(s, F, bl["dst"], v)
                        stack.append((s, bl["to"], False))
            elif t == "assert":
                c = self.operand(st, F, bl["c"]).e
                good = c if bl["exp"] else z3.Not(c)
                for s, ok in self.branch(st, [(good, True), (z3.Not(good), False)]):
                    if ok:
                        stack.append((s, bl["to"], False))
                    else:
                        res.append(("panic", s, f"{bl['k']} check at {F.body['path']}:{bl['line']}"))
            elif t == "unreachable":
                if self.feasible(st):
                    res.append(("panic", st, f"unreachable at {F.body['path']}:{bl['line']}"))
            elif t == "dead":
                pass
            elif t == "yield":
                raise Unsupported("yield reached: a modelled future was pending")
            else:
                raise Unsupported("terminator " + t)
        return res

    # ------------------------------------------------------------ loops
    def do_loop(self, F, st, H, stop, inside, n=0):
        if n > MAX_UNROLL:
            raise Unsupported(f"loop at {F.body['path']} not summarised")
        ctx = object()
        base = st.fork()
        self.loopctx.append(ctx)
        try:
            r = self.run_from(F, st, H, H, inside)
        except SymLoop as e:
            if e.ctx is not ctx:
                raise
            self.loopctx.pop()
            self.loopctx.append(None)
            return self.sym_loop(F, base, H, stop, inside, e.cell)
        finally:
            self.loopctx.pop()
        out = []
        again = [s for kind, s, _ in r if kind == "loop"]
        if len(again) > 1 and "as serde::de::Visitor<" in F.body["path"]:
            # one state per field of a deserialised struct: present and absent fields are merged
            SPLIT.discard("std::option::Option")
            try:
                again = self.join_states(F, again, H, len(base.pc), True)
            finally:
                SPLIT.add("std::option::Option")
            r = [x for x in r if x[0] != "loop"] + [("loop", s, None) for s in again]
        for kind, s, v in r:
            if kind == "loop":
                out.extend(self.do_loop(F, s, H, stop, inside, n + 1))
            else:
                out.append((kind, s, v))
        return out

    def sym_loop(self, F, base, H, stop, inside, cell):
        """A loop over a sequence of any length: its body is executed once, on the element at an arbitrary index.
        Early exits happen at some index before which every element lets the loop go on; what the body adds to an
        accumulator (a vector, map or flag, itself arbitrary while the body runs) is generalised over the sequence."""
        it = self.get(base, base.cells[cell[0]], cell[1])
        n = self.iter_len(it)
        i = z3.Int(fresh_name("idx"))
        lo = it.pos if not isinstance(it.pos, int) else z3.IntVal(it.pos)
        mark = sym._fresh[0]
        live = live_in(F.body).get(H, set())

        def once(start):
            g = start.fork()
            g.assume(i >= lo)
            g.assume(i < n)
            self.write_mut(g, VMut(cell[0], cell[1]), VGen(VIter(it.base, i, it.stages, it.rev, it.end)))
            npc, ntr = len(g.pc), len(g.trace)
            naming, NAMING[0] = NAMING[0], False
            self.gens.append((F.fid, H))
            try:
                rs = self.run_from(F, g, H, H, inside)
            finally:
                NAMING[0] = naming
                self.gens.pop()
            conts = [x for x in rs if x[0] == "loop"]
            exits = [x for x in rs if x[0] != "loop"]
            changed = {}
            for _, s, _ in conts:
                if len(s.trace) != ntr:
                    raise Unsupported("loop with effects")
                for c, v in start.cells.items():
                    if c == cell[0]:
                        continue
                    if c[0] == F.fid and c[1] not in live:
                        continue
                    w = s.cells.get(c)
                    if w is v:
                        continue
                    if w is None or not same(v, w):
                        changed.setdefault(c, []).append(w)
            return conts, exits, changed, npc, ntr

        conts, exits, changed, npc, ntr = once(base)
        accs = {}
        if changed:
            if it.pos != 0:
                raise Unsupported("accumulating loop over a rest")
            arb = base.fork()
            for c, ws in changed.items():
                if any(w is None for w in ws):
                    raise Unsupported("loop-carried state")
                arb.cells[c] = accs[c] = havoc(base.cells[c], ws)
            conts, exits, changed2, npc, ntr = once(arb)
            if any(c not in accs for c in changed2):
                raise Unsupported("loop-carried state")
        C = []
        for _, s, _ in conts:
            fs = s.pc[npc:]
            self.check_ground(fs, i, mark)
            C.append(z3.And(fs) if fs else z3.BoolVal(True))
        cont = z3.simplify(z3.Or(C)) if C else z3.BoolVal(False)
        j = z3.Int("j~lp")
        contj = z3.substitute(cont, (i, j))

        def forall_upto(hi):
            if z3.is_true(cont):
                return z3.BoolVal(True)
            return z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < hi), contj))

        fin = base.fork()
        fin.assume(forall_upto(n))
        self.write_mut(fin, VMut(cell[0], cell[1]), VIter(VSeq(None, ()), 0))
        for c, h in accs.items():
            fin.cells[c] = self.accumulated(fin, base.cells[c], h, [(z3.And(s.pc[npc:] + [z3.BoolVal(True)]), s.cells[c]) for _, s, _ in conts], i, it, mark)
        out = []
        for kind, s, v in exits:
            if not self.feasible(s):
                continue
            if accs:
                # leaving early: what was accumulated so far must not matter
                fs = list(s.pc[npc:]) + ([box(v)] if kind == "ret" and v is not None else [])
                for ev in s.trace[ntr:]:
                    fs += [box(a) for a in ev.args]
                for c, v1 in s.cells.items():
                    if c[0] != F.fid and c not in accs and s.cells[c] is not base.cells.get(c):
                        fs.append(box(v1))
                self.check_ground(fs, i, mark)
            s.assume(forall_upto(i))
            out.append((kind, s, v))
        if self.feasible(fin):
            out.extend(self.run_from(F, fin, H, stop, inside | {H}))
        return out

    def accumulated(self, fin, v0, h, ws, i, it, mark):
        """Value after the loop of what was v0 before it; h stood for it while the body ran once, giving one of ws."""
        n = self.iter_len(it)
        if h is v0:
            return v0
        if isinstance(h, VBool):
            ds = []
            for c, w in ws:
                if not z3.is_true(z3.simplify(z3.substitute(w.e, (h.e, z3.BoolVal(True))))):
                    raise Unsupported("flag that is also cleared")
                ds.append(z3.And(c, z3.substitute(w.e, (h.e, z3.BoolVal(False)))))
            D = z3.simplify(z3.Or(ds))
            self.check_ground([D], i, mark)
            j = z3.Int("j~lp")
            b = z3.Bool(fresh_name("flag"))
            fin.assume(b == z3.Or(v0.e, z3.Exists([j], z3.And(j >= 0, j < n, z3.substitute(D, (i, j))))))
            return VBool(b)
        if isinstance(h, VAcc):
            ys = []
            for c, w in ws:
                if not (isinstance(w, VAcc) and w.src is h.src and len(w.added) <= 1):
                    raise Unsupported("accumulating loop %s %s" % (type(w).__name__, getattr(w, "added", None)))
                ys.append((c, box(w.added[0]) if w.added else None))
            self.check_ground([y for _, y in ys if y is not None] + [c for c, _ in ys], i, mark)
            if all(y is not None for _, y in ys):
                b = ys[-1][1]
                for c, y in reversed(ys[:-1]):
                    b = z3.If(c, y, b)
                r = self.comprehension(it, i, b, h.ety)
                if isinstance(v0, VSeq) and not v0.xs:
                    return r
                import models
                return VSSeq(h.ety, models.seq_cat_term(box(v0), box(r)))
            if isinstance(v0, VSeq) and not v0.xs and isinstance(it.base, VSSeq) and not it.rev:
                import models
                old = sat_(it.base.t, i)
                hole = z3.Const("elem~cs", U)
                cs = []
                for c, y in ys:
                    c2 = z3.substitute(c, (old, hole))
                    y2 = None if y is None else z3.substitute(y, (old, hole))
                    cs.append((c2, y2))
                if not any(mentions(x, i) for p in cs for x in p if x is not None):
                    return models.VLazy(VIter(it.base, 0, (("cases", (cs, hole, h.ety)),)), h.ety)
            raise Unsupported("conditionally accumulating loop")
        if isinstance(h, VMap):
            st = [f for k, f in it.stages if k == "entry"]
            if len(it.stages) != 1 or not st:
                raise Unsupported("map filled in a loop")
            src = st[0][0]
            kx = box(VStr(tos(fld_term("tuple2", "0", 0, self.iter_at(it, i).t))))
            want = z3.simplify(z3.Store(h.arr, kx, z3.Select(src.arr, kx)))
            for _, w in ws:
                if not (isinstance(w, VMap) and (z3.simplify(w.arr).eq(want))):
                    raise Unsupported("map filled in a loop")
            if z3.simplify(v0.arr).eq(z3.simplify(EMPTY_MAP)):
                return VMap(src.arr, v0.kty, v0.vty)
            m = z3.Const(fresh_name("merged"), v0.arr.sort())
            k = z3.Const("k~mg", U)
            AX.add(m, z3.ForAll([k], z3.Select(m, k) == z3.If(z3.Select(src.arr, k) != absent, z3.Select(src.arr, k), z3.Select(v0.arr, k))))
            return VMap(m, v0.kty, v0.vty)
        if isinstance(h, VAdt):
            if not all(isinstance(w, VAdt) and w.v == h.v for _, w in ws):
                raise Unsupported("loop-carried state")
            return VAdt(v0.ty, v0.v, [self.accumulated(fin, f, h.fs[k], [(c, w.fs[k]) for c, w in ws], i, it, mark)
                                      if h.fs[k] is not f else f for k, f in enumerate(v0.fs)])
        raise Unsupported("loop-carried state")

    def comprehension(self, it, i, body, ety):
        """The sequence of body(i) for i over the iterator's whole range."""
        n = self.iter_len(it)
        j = z3.Int("j~cm")
        bj = z3.substitute(z3.simplify(body), (i, j))
        base = it.base if isinstance(it.base, VSSeq) else None
        if base is not None and bj.eq(z3.substitute(sat_(base.t, i), (i, j))) and not it.rev:
            return VSSeq(ety, base.t)
        nm = "seqof~" + digest(z3.Lambda([j], bj)) + "~" + digest(z3.simplify(n))
        m = z3.Const(nm, U)
        if not AX.has(m, "cm"):
            AX.add(m, slen(m) == n)
            AX.add(m, m != absent)
            pats = [sat_(m, j)]
            if base is not None and not it.rev:
                pats.append(sat_(base.t, j))
            AX.add(m, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), sat_(m, j) == bj), patterns=pats))
        return VSSeq(ety, m)

    def check_ground(self, fs, i, mark, also=()):
        """Path conditions generalised over i must not mention symbols invented on the way."""
        seen, todo = set(), list(fs)
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                todo.append(e.body())
                continue
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not e.eq(i) and not any(e.eq(k) for k in also):
                nm = e.decl().name()
                if "!" in nm and nm.rsplit("!", 1)[1].isdigit() and int(nm.rsplit("!", 1)[1]) > mark:
                    raise Unsupported("loop body depends on an unconstrained value")
            todo.extend(e.children())

    # ------------------------------------------------------------ iterators
    def iter_len(self, it):
        b = it.base
        if isinstance(b, VSeq):
            return z3.IntVal(len(b.xs))
        if isinstance(b, VSSeq):
            return slen_term(b.t)
        if isinstance(b, tuple):
            return z3.simplify(z3.If(b[2] >= b[1], b[2] - b[1], 0))
        raise Unsupported("iterator base")

    def iter_at(self, it, k):
        """Element number k (python int or SMT Int) of the base, as yielded."""
        b = it.base
        if it.rev:
            n = self.iter_len(it)
            k = z3.simplify(n - 1 - k)
            if z3.is_int_value(k):
                k = k.as_long()
        if isinstance(b, VSeq):
            if isinstance(k, int):
                return b.xs[k]
            raise Unsupported("symbolic index into a list")
        if isinstance(b, VSSeq):
            return unbox(b.ety, sat_(b.t, k))
        return VInt(z3.simplify(b[1] + k))

    def iter_concrete(self, it):
        b = it.base
        if isinstance(b, VSeq):
            return len(b.xs)
        n = z3.simplify(self.iter_len(it))
        if z3.is_int_value(n):
            return n.as_long()
        return None

    def stage_all(self, st, stages, x):
        """stage() for a generic element: joined values stay explicit case distinctions."""
        naming, NAMING[0] = NAMING[0], False
        try:
            return self.stage(st, stages, x)
        finally:
            NAMING[0] = naming

    def stage(self, st, stages, x):
        """Runs one element through map/filter stages -> list of (kind, st, value|None)."""
        cur = [("ret", st, x)]
        for kind, f in stages:
            nxt = []
            for k, s, v in cur:
                if k == "panic" or v is None:
                    nxt.append((k, s, v))
                    continue
                if kind == "id":
                    nxt.append((k, s, v))
                elif kind == "deref":
                    nxt.append((k, s, v.x if isinstance(v, VRef) else v))
                elif kind == "ref":
                    nxt.append((k, s, v if isinstance(v, VRef) else VRef(v)))
                elif kind == "map":
                    nxt.extend(self.apply(s, f, [v]))
                elif kind in ("filter", "take_while", "skip_while"):
                    if kind != "filter":
                        raise Unsupported(kind)
                    for k2, s2, b in self.apply(s, f, [VRef(v)]):
                        if k2 == "panic":
                            nxt.append((k2, s2, b))
                            continue
                        for s3, keep in self.branch(s2, [(b.e, True), (z3.Not(b.e), False)]):
                            nxt.append(("ret", s3, v if keep else None))
                elif kind == "filter_map":
                    for k2, s2, o in self.apply(s, f, [v]):
                        if k2 == "panic":
                            nxt.append((k2, s2, o))
                            continue
                        for s3, y in self.opt(s2, o):
                            nxt.append(("ret", s3, y))
                elif kind == "flat_opt":
                    for s3, y in self.opt(s, v):
                        nxt.append(("ret", s3, y))
                elif kind == "flat":
                    nxt.extend(self.flat(s, v))
                elif kind in ("true", "false"):
                    b = v.e if kind == "true" else z3.Not(v.e)
                    for s3, hit in self.branch(s, [(b, True), (z3.Not(b), False)]):
                        nxt.append(("ret", s3, v if hit else None))
                elif kind == "eqfilter":
                    b = z3.simplify(eq(v, f))
                    for s3, hit in self.branch(s, [(b, True), (z3.Not(b), False)]):
                        nxt.append(("ret", s3, v if hit else None))
                elif kind == "cases":
                    cs, hole, ety = f
                    e = box(v)
                    alts = [(z3.simplify(z3.substitute(c, (hole, e))), None if y is None else z3.substitute(y, (hole, e))) for c, y in cs]
                    for s3, y in self.branch(s, alts):
                        nxt.append(("ret", s3, None if y is None else unbox(ety, y)))
                elif kind == "entry":
                    m, kt, vt, byref = f
                    kx = VStr(tos(fld_term("tuple2", "0", 0, v.t)))
                    e = z3.Select(m.arr, box(kx))
                    s.assume(e != absent)
                    x = unbox(vt, e)
                    nxt.append((k, s, VTup([VRef(kx), VRef(x)] if byref else [kx, x])))
                elif kind == "pair":
                    kt, vt = f
                    t = v.t
                    nxt.append((k, s, VTup([VRef(unbox(kt, fld_term("tuple2", "0", 0, t))), VRef(unbox(vt, fld_term("tuple2", "0", 1, t)))])))
                else:
                    raise Unsupported("iterator stage " + kind)
            cur = nxt
        return cur

    def flat(self, st, v):
        """One element of a nested sequence (or Option/Result)."""
        x = deref(v)
        isref = isinstance(v, VRef)
        if isinstance(x, (VAdt, VSym)) and x.ty.path in ("std::option::Option", "std::result::Result"):
            return [("ret", s, y) for s, y in self.opt(st, x)]
        if isinstance(x, (VSeq, VSSeq)):
            x = VIter(x, 0, (("ref", None),) if isref else ())
        if not isinstance(x, VIter) or self.binders is None:
            raise Unsupported("flatten")
        n = self.iter_len(x)
        k = z3.Int(fresh_name("idx"))
        self.binders.append(k)
        st.assume(k >= x.pos)
        st.assume(k < n)
        if not self.feasible(st):
            return []
        return self.stage(st, x.stages, self.iter_at(x, k))

    def opt(self, st, o):
        """Option/Result value -> [(state, payload or None)]."""
        o = deref(o)
        if isinstance(o, VAdt):
            nm = o.ty.vname(o.v)
            return [(st, o.fs[0] if nm in ("Some", "Ok") else None)]
        if isinstance(o, VSym):
            ty = o.ty
            good = "Some" if ty.path.endswith("Option") else "Ok"
            gi = ty.vindex(good)
            d = disc_term(ty, o.t)
            out = []
            ft = ty.field_ty(gi, 0)
            for s, g in self.branch(st, [(d == ty.discr(gi), True), (d != ty.discr(gi), False)]):
                out.append((s, unbox(ft, fld_term(adt_name(ty), good, 0, o.t)) if g else None))
            return out
        raise Unsupported("option of " + type(o).__name__)

    def first_match(self, st, it, pred=None):
        """First yielded element: -> [(kind, state, (value, iterator_after) or None)].
        pred: optional extra stage tuple."""
        stages = it.stages + ((pred,) if pred else ())
        n = self.iter_concrete(it)
        if n is not None and isinstance(it.pos, int):
            work, out = [(st, it.pos)], []
            while work:
                s, p = work.pop()
                if p >= n:
                    out.append(("ret", s, None))
                    continue
                for k, s2, v in self.stage(s, stages, self.iter_at(it, p)):
                    if k == "panic":
                        out.append((k, s2, v))
                    elif v is None:
                        work.append((s2, p + 1))
                    else:
                        out.append(("ret", s2, (v, VIter(it.base, p + 1, it.stages, it.rev))))
            return out
        ln = self.iter_len(it)
        lo = it.pos if not isinstance(it.pos, int) else z3.IntVal(it.pos)
        i = z3.Int(fresh_name("idx"))
        g = st.fork()
        g.assume(i >= lo)
        g.assume(i < ln)
        out = []
        e = st.fork()
        if self.feasible(g):
            npc, ntr = len(g.pc), len(g.trace)
            saved, self.binders = self.binders, []
            mark = sym._fresh[0]
            naming, NAMING[0] = NAMING[0], False
            try:
                rs = self.stage(g, stages, self.iter_at(it, i))
            finally:
                ks, self.binders = self.binders, saved
                NAMING[0] = naming
            hits = []
            Y = []
            for k, s, v in rs:
                if len(s.trace) != ntr:
                    raise Unsupported("iterator closure with effects")
                if k == "panic" or v is not None:
                    hits.append((k, s, v))
                    fs = s.pc[npc:]
                    self.check_ground(fs, i, mark, ks)
                    Y.append(z3.And(fs) if fs else z3.BoolVal(True))
            y = z3.simplify(z3.Or(Y)) if Y else z3.BoolVal(False)
            j = z3.Int("j~fm")
            kv = [z3.Int(f"k~fm{n}") for n in range(len(ks))]
            # in a reversed iteration quantify over the place in the sequence, not the step
            jj = z3.simplify(ln - 1 - j) if it.rev and z3.is_expr(ln) else j
            yj = z3.simplify(z3.substitute(y, *([(i, jj)] + list(zip(ks, kv)))))

            def none_upto(hi):
                if z3.is_false(y):
                    return z3.BoolVal(True)
                if z3.is_true(y):
                    return hi <= lo
                return z3.ForAll([j] + kv, z3.Implies(z3.And(jj >= lo, jj < hi), z3.Not(yj)))

            for k, s, v in hits:
                if not ks:
                    s.assume(none_upto(i))
                elif len(ks) == 1 and not it.rev and not z3.is_true(y):
                    # the first hit: none in earlier elements, none earlier within this one
                    s.assume(none_upto(i))
                    s.assume(z3.ForAll(kv, z3.Implies(kv[0] < ks[0], z3.Not(z3.simplify(z3.substitute(y, (ks[0], kv[0])))))))
                if k == "panic":
                    out.append((k, s, v))
                else:
                    # (within a flattened iterator the place inside the inner one is not kept: no further use)
                    rest = None if ks else VIter(it.base, z3.simplify(i + 1), it.stages, it.rev)
                    out.append(("ret", s, (v, rest)))
            e.assume(none_upto(ln))
        if self.feasible(e):
            out.append(("ret", e, None))
        return out

    # ------------------------------------------------------------ calls
    def apply(self, st, f, args):
        """Calls a closure or function value."""
        g = f
        while isinstance(g, VRef):
            g = g.x
        if isinstance(g, VMut):
            target = self.read_mut(st, g)
            if isinstance(target, VClo):
                return self.call_closure(st, target, args, g)
            return self.apply(st, target, args)
        if isinstance(g, VClo):
            return self.call_closure(st, g, args, None)
        if isinstance(g, VFn):
            return self.call(st, g.callee, args, None, None)
        raise Unsupported(f"call of {type(g).__name__}")

    def call_closure(self, st, clo, args, mut):
        key = clo.ty.d["key"]
        body = self.prog.bodies.get(key)
        if body is None:
            raise Unsupported("closure without body")
        t1 = self.prog.types[body["locals"][1]]
        if t1.k == "ref":
            if t1.d["mut"]:
                me = mut if mut is not None else self.new_cell(st, clo)
            else:
                me = VRef(clo)
        else:
            me = clo
        return self.run_body(key, [me] + list(args), st)

    def call_value(self, st, f, args, F, bl):
        if isinstance(f, VFn):
            return self.call(st, f.callee, args, F, bl)
        return self.apply(st, f, args)

    def call(self, st, c, args, F, bl):
        r = self.models.dispatch(self, st, c, args)
        if r is None:
            raise Unsupported(f"call {c.get('rpath') or c.get('path')}")
        out = []
        for x in r:
            out.append(x if len(x) == 3 else ("ret", x[0], x[1]))
        return out

    def merge_bool(self, st, results, npc):
        """Joins pure boolean results into one formula."""
        parts = []
        for k, s, v in results:
            if k == "panic":
                return None
            parts.append(z3.And(s.pc[npc:] + [v.e]))
        return z3.simplify(z3.Or(parts))


class VAcc(VSSeq):
    """A vector of unknown content that a loop body being summarised appends to."""
    __slots__ = ("src", "added")

    def __init__(self, ety, src, added=()):
        VSSeq.__init__(self, ety, src)
        self.src, self.added = src, added
        if added:
            import models
            self.t = models.seq_cat_term(src, models.seq_term([box(x) for x in added]))


def havoc(v0, ws):
    """An arbitrary value in place of the parts of v0 that the loop body changes."""
    if isinstance(v0, VBool):
        return VBool(z3.Bool(fresh_name("acc")))
    if isinstance(v0, (VSeq, VSSeq)):
        return VAcc(v0.ety, z3.Const(fresh_name("acc"), U))
    if isinstance(v0, VMap):
        return VMap(z3.Const(fresh_name("acc"), v0.arr.sort()), v0.kty, v0.vty)
    if isinstance(v0, VAdt) and all(isinstance(w, VAdt) and w.v == v0.v for w in ws):
        return VAdt(v0.ty, v0.v, [f if all(same(f, w.fs[k]) for w in ws) else havoc(f, [w.fs[k] for w in ws]) for k, f in enumerate(v0.fs)])
    raise Unsupported(f"loop-carried state ({type(v0).__name__})")


def mentions(e, c):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


class VGen(V):
    """Iterator at a generic position of a loop being summarised."""
    __slots__ = ("it", "done")

    def __init__(self, it, done=False):
        self.it, self.done = it, done


def same(a, b):
    if a is b:
        return True
    try:
        return z3.simplify(eq(a, b)).eq(z3.BoolVal(True)) or box(a).eq(box(b))
    except Exception:
        return False


SPLIT = {"std::option::Option", "std::result::Result", "std::ops::ControlFlow", "std::task::Poll"}


def skeleton(v):
    if isinstance(v, VRef):
        return ("&", skeleton(v.x))
    if isinstance(v, VAdt):
        if v.ty.is_enum and v.ty.path not in SPLIT:
            try:
                box(v)
            except Unsupported:
                return id(v)
            return ("sym", v.ty.s)
        return (v.ty.path, v.v, tuple(skeleton(f) for f in v.fs))
    if isinstance(v, VTup):
        return ("tup", tuple(skeleton(f) for f in v.fs))
    if isinstance(v, VOpaque):
        return "opaque"
    if isinstance(v, (VStr, VInt, VBool)):
        return type(v).__name__
    if isinstance(v, VSym):
        return ("sym", v.ty.s)
    if isinstance(v, VMap):
        return ("map",)
    if isinstance(v, VAcc):
        return ("acc", v.src.get_id(), tuple(skeleton(x) for x in v.added))
    if isinstance(v, VSSeq):
        return ("sseq", v.ety.s if v.ety is not None else None)
    if isinstance(v, VClo):
        return ("clo", v.ty.s, tuple(skeleton(f) for f in v.fs))
    if isinstance(v, VUninit):
        return "uninit"
    if isinstance(v, VPos):
        return ("pos", v.n)
    if isinstance(v, VSeq) and v.xs and all(isinstance(x, VStr) and z3.is_string_value(x.e) for x in v.xs):
        return ("lits",) + tuple(x.e.as_string() for x in v.xs)
    if isinstance(v, VMut):
        return ("mut", str(v.cell), str(v.path))
    if isinstance(v, VFn):
        return ("fn", str(v.callee.get("rpath") or v.callee.get("path")))
    return id(v)


def cell_key(v):
    if isinstance(v, VMut):
        return str(("mut", v.cell, v.path))
    if isinstance(v, VIter):
        return str(id(v))
    return str(skeleton(v))


def ite(es, ds):
    r = es[-1]
    for e, d in zip(reversed(es[:-1]), reversed(ds[:-1])):
        r = e if r.eq(e) else z3.If(d, e, r)
    if z3.is_app_of(r, z3.Z3_OP_ITE) and NAMING[0]:
        k = r.get_id()
        if k not in NAMED:
            c = z3.Const(fresh_name("join"), r.sort())
            AX.add(c, c == r)
            if r.sort() == U:
                AX.add(c, c != absent)
            NAMED[k] = (c, r)
            UNNAMED[c.get_id()] = r
            JOINS.add(c.get_id())
        return NAMED[k][0]
    return r


NAMING = [True]
NAMED = {}
UNNAMED = {}


def merge_val(vs, ds):
    v = vs[0]
    if all(w is v for w in vs):
        return v
    if isinstance(v, VRef):
        return VRef(merge_val([w.x for w in vs], ds))
    if isinstance(v, VAdt) and v.ty.is_enum and v.ty.path not in SPLIT:
        if all(isinstance(w, VAdt) and w.v == v.v for w in vs) and len({tuple(skeleton(f) for f in w.fs) for w in vs}) == 1:
            return VAdt(v.ty, v.v, [merge_val([w.fs[i] for w in vs], ds) for i in range(len(v.fs))])
        return VSym(v.ty, ite([box(w) for w in vs], ds))
    if isinstance(v, VAdt):
        return VAdt(v.ty, v.v, [merge_val([w.fs[i] for w in vs], ds) for i in range(len(v.fs))])
    if isinstance(v, VTup):
        return VTup([merge_val([w.fs[i] for w in vs], ds) for i in range(len(v.fs))])
    if isinstance(v, VClo):
        return VClo(v.ty, [merge_val([w.fs[i] for w in vs], ds) for i in range(len(v.fs))])
    if isinstance(v, VOpaque):
        return v
    if isinstance(v, (VStr, VInt, VBool)):
        return type(v)(ite([w.e for w in vs], ds))
    if isinstance(v, VSym):
        return VSym(v.ty, ite([box(w) for w in vs], ds))
    if isinstance(v, VMap):
        return VMap(ite([w.arr for w in vs], ds), v.kty, v.vty)
    if isinstance(v, VAcc):
        return VAcc(v.ety, v.src, tuple(merge_val([w.added[i] for w in vs], ds) for i in range(len(v.added))))
    if isinstance(v, VSSeq):
        return VSSeq(v.ety, ite([w.t for w in vs], ds))
    return v
