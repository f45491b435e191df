"""Loading of the MIR dump written by mirdump: types, bodies, string literals."""
import json
import os
import re


class Ty:
    __slots__ = ("ix", "k", "s", "d", "prog", "_norm")

    def __init__(self, prog, ix, d):
        self.prog, self.ix, self.d = prog, ix, d
        self.k, self.s = d["k"], d["s"]
        self._norm = None

    def __repr__(self):
        return f"Ty({self.s})"

    @property
    def path(self):
        return self.d.get("path", "")

    def arg(self, i):
        a = self.d["args"]
        a = [x for x in a if isinstance(x, int)]
        return self.prog.types[a[i]] if i < len(a) else None

    @property
    def elem(self):
        return self.prog.types[self.d["e"]]

    @property
    def elems(self):
        return [self.prog.types[x] for x in self.d["es"]]

    def field_ty(self, v, i):
        vs = self.d.get("vs") or []
        if self.k == "tuple":
            return self.elems[i]
        if self.k in ("closure", "coroutine"):
            return self.prog.types[self.d["ups"][i]]
        if v < len(vs) and i < len(vs[v]["fs"]):
            t = vs[v]["fs"][i]["t"]
            return None if t is None else self.prog.types[t]
        return None

    def nfields(self, v):
        if self.k == "tuple":
            return len(self.d["es"])
        if self.k in ("closure", "coroutine"):
            return len(self.d["ups"])
        vs = self.d.get("vs") or []
        return len(vs[v]["fs"]) if v < len(vs) else None

    def vname(self, v):
        vs = self.d.get("vs") or []
        return vs[v]["n"] if v < len(vs) else str(v)

    def vindex(self, name):
        for i, v in enumerate(self.d.get("vs") or []):
            if v["n"] == name:
                return i
        raise KeyError(f"{self.s}::{name}")

    def findex(self, v, name):
        for i, f in enumerate((self.d.get("vs") or [])[v]["fs"]):
            if f["n"] == name:
                return i
        raise KeyError(f"{self.s}.{name}")

    @property
    def is_enum(self):
        return self.k == "adt" and self.d["ak"] == "enum"

    @property
    def nvariants(self):
        return len(self.d.get("vs") or [])

    def discr(self, v):
        return int(self.d["vs"][v]["d"])


TRANSPARENT = {
    "std::boxed::Box", "std::sync::Arc", "std::rc::Rc", "std::pin::Pin", "std::mem::MaybeUninit",
    "std::mem::ManuallyDrop", "alloc::boxed::Box", "std::cell::UnsafeCell",
}


def strip(ty):
    """Looks through references and owning pointers: they are transparent in the value model."""
    while ty is not None:
        if ty.k in ("ref", "ptr"):
            ty = ty.elem
        elif ty.k == "adt" and ty.path in TRANSPARENT:
            ty = ty.arg(0)
        elif ty.k == "adt" and ty.path == "std::borrow::Cow":
            ty = ty.arg(0)
        elif ty.k == "array" or ty.k == "slice":
            return ty
        else:
            return ty
    return ty


class Prog:
    def __init__(self):
        self.types, self.bodies, self.by_path = [], {}, {}
        self.literals = set()
        self.consts = {}
        self._opt = {}
        self._manual = {}

    def load(self, path, prefix):
        with open(path) as f:
            txt = f.read()
        if prefix != "crate":
            txt = re.sub(r"(?<![A-Za-z0-9_:])crate::", prefix + "::", txt)
        d = json.loads(txt)
        off = len(self.types)

        def shift_ty(x):
            for k in ("e",):
                if k in x:
                    x[k] += off
            for k in ("es", "ups", "args"):
                if k in x:
                    x[k] = [y + off if isinstance(y, int) else y for y in x[k]]
            for v in x.get("vs", []):
                for fl in v["fs"]:
                    if fl["t"] is not None:
                        fl["t"] += off
            if "callee" in x:
                shift_callee(x["callee"])

        def shift_callee(c):
            for k in ("ret", "implself", "ty", "disp_ty"):
                if k in c:
                    c[k] += off
            for k in ("args", "rargs", "ins"):
                if k in c:
                    c[k] = [y + off if isinstance(y, int) else y for y in c[k]]

        def shift_place(p):
            for e in p[1]:
                if e[0] == "f":
                    e[2] += off
                elif e[0] == "oc":
                    e[1] += off

        def shift_op(o):
            if o["o"] in ("copy", "move"):
                shift_place(o["p"])
            elif o["o"] == "const":
                o["t"] += off
                if "fn" in o:
                    shift_callee(o["fn"])
                if "dargs" in o:
                    o["dargs"] = [y + off if isinstance(y, int) else y for y in o["dargs"]]
                if "it" in o:
                    o["it"] += off
                if "to" in o and isinstance(o["to"], dict):
                    shift_mem(o["to"])

        def shift_mem(m):
            if "et" in m:
                m["et"] += off
            if isinstance(m.get("to"), dict):
                shift_mem(m["to"])
            for e in m.get("es", []):
                shift_mem(e)

        def shift_rv(r):
            for k in ("a", "b"):
                if isinstance(r.get(k), dict):
                    shift_op(r[k])
            if "p" in r:
                shift_place(r["p"])
            if isinstance(r.get("t"), int):
                r["t"] += off
            for o in r.get("ops", []):
                shift_op(o)

        for i, t in enumerate(d["types"]):
            if off:
                shift_ty(t)
            self.types.append(Ty(self, off + i, t))
        for b in d["bodies"]:
            if off:
                b["locals"] = [x + off for x in b["locals"]]
                b["args"] = [y + off if isinstance(y, int) else y for y in b["args"]]
                for n in b["names"]:
                    shift_place(n[1])
                for bl in b["blocks"]:
                    if bl is None:
                        continue
                    for s in bl["s"]:
                        if s[0] == "=":
                            shift_place(s[1])
                            shift_rv(s[2])
                        elif s[0] == "sd":
                            shift_place(s[1])
                    for k in ("a", "c"):
                        if k in bl:
                            shift_op(bl[k])
                    if "f" in bl:
                        shift_op(bl["f"])
                        for a in bl["args"]:
                            shift_op(a)
                        shift_place(bl["dst"])
                    if "p" in bl:
                        shift_place(bl["p"])
            if b["krate"].startswith("openid4vp"):
                self._harvest(b)
            self.bodies[b["key"]] = b
            if b["kind"] == "fn" and b["key"] == b["path"]:
                self.by_path[b["path"]] = b

        for x in d.get("consts", []):
            shift_op(x["c"])
            self.consts[x["path"]] = x["c"]

    def _harvest(self, x):
        if isinstance(x, dict):
            if x.get("v") == "bytes":
                s = x["b"]
                if len(s) <= 80 and all(32 <= ord(c) < 127 for c in s):
                    self.literals.add(s)
            for v in x.values():
                self._harvest(v)
        elif isinstance(x, list):
            for v in x:
                self._harvest(v)

    def ty_by_s(self, s):
        for t in self.types:
            if t.s == s:
                return t
        return None

    def manual(self, trait):
        """Types of /repo whose impl of a structural trait (Clone, PartialEq) is written by hand."""
        if trait not in self._manual:
            self._manual[trait] = {b["impl_self"].split("<")[0] for b in self.bodies.values()
                                   if b.get("derived") is False and b["impl_self"].startswith(("crate::", "openid4vp")) and f" as {trait}" in (b.get("impl_trait") or "")}
        return self._manual[trait]

    def holds_manual(self, ty, trait, inside=False, seen=None):
        """Does a value of this type contain (inside: strictly) one with a hand-written impl of the trait?"""
        ms = self.manual(trait)
        if not ms:
            return False
        seen = set() if seen is None else seen
        if ty is None or id(ty) in seen:
            return False
        seen.add(id(ty))
        if not inside and ty.k == "adt" and ty.path in ms:
            return True
        sub = []
        if ty.k in ("ref", "ptr", "array", "slice"):
            sub = [ty.elem]
        elif ty.k == "tuple":
            sub = ty.elems
        elif ty.k == "adt":
            sub = [self.types[a] for a in ty.d.get("args") or [] if isinstance(a, int)]
            sub += [self.types[f["t"]] for v in ty.d.get("vs") or [] for f in v["fs"] if f["t"] is not None]
        return any(self.holds_manual(t, trait, False, seen) for t in sub)


def load(outdir):
    p = Prog()
    p.load(os.path.join(outdir, "openid4vp.json"), "crate")
    f = os.path.join(outdir, "openid4vp_frontend.json")
    if os.path.exists(f):
        p.load(f, "openid4vp_frontend")
    return p


if __name__ == "__main__":
    import sys
    p = load(sys.argv[1])
    pat = sys.argv[2]

    def pl(x):
        s = f"_{x[0]}"
        for e in x[1]:
            if e[0] == "*":
                s = f"(*{s})"
            elif e[0] == "f":
                s += f".{e[1]}"
            elif e[0] == "d":
                s += f"@{e[1]}"
            else:
                s += str(e)
        return s

    def op(o):
        if o["o"] in ("copy", "move"):
            return ("mv " if o["o"] == "move" else "") + pl(o["p"])
        if "fn" in o:
            c = o["fn"]
            return f"{c.get('kind')}:{c.get('key') or c.get('rpath') or c.get('path')}" + ("[derived]" if c.get("derived") else "") + (f" disp={c['disp']}" if "disp" in c else "")
        return "const " + str({k: v for k, v in o.items() if k not in ("o", "t")}) + ":" + p.types[o["t"]].s

    for k, b in p.bodies.items():
        if re.search(pat, k):
            print(f"== {k}  nargs={b['nargs']} {b['span']} spread={b['spread']} kind={b['kind']}")
            for i, l in enumerate(b["locals"]):
                print(f"   _{i}: {p.types[l].s}")
            for i, bl in enumerate(b["blocks"]):
                if bl is None:
                    continue
                print(f" bb{i}:")
                for s in bl["s"]:
                    if s[0] == "=":
                        r = s[2]
                        if r["r"] == "use":
                            t = op(r["a"])
                        elif r["r"] == "ref":
                            t = ("&mut " if r["mut"] else "&") + pl(r["p"])
                        elif r["r"] == "agg":
                            t = f"{r['k']} {p.types[r['t']].s if 't' in r else ''} v{r.get('v')} (" + ", ".join(op(o) for o in r["ops"]) + ")"
                        elif r["r"] == "discr":
                            t = "discr " + pl(r["p"])
                        elif r["r"] == "bin":
                            t = f"{r['op']}({op(r['a'])}, {op(r['b'])})"
                        elif r["r"] in ("un", "cast"):
                            t = f"{r.get('op') or r.get('k')}({op(r['a'])})"
                        else:
                            t = str(r)
                        print(f"    {pl(s[1])} = {t}")
                    elif s[0] != "dead":
                        print("   ", s)
                t = bl["t"]
                if t == "call":
                    print(f"    {pl(bl['dst'])} = {op(bl['f'])}(" + ", ".join(op(a) for a in bl["args"]) + f") -> {bl['to']}  L{bl['line']}")
                elif t == "switch":
                    print(f"    switch {op(bl['a'])} {bl['cases']} else {bl['otherwise']}")
                elif t == "assert":
                    print(f"    assert {op(bl['c'])}=={bl['exp']} {bl['k']} -> {bl['to']}")
                else:
                    print(f"    {t} {bl.get('to','')}")
