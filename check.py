#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo's current working tree."""
import glob
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import subprocess
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "vcgen"))
sys.path.insert(0, os.path.join(VERIF, "tools"))

T0 = time.time()
CORES = 8


def load_contracts():
    import spec
    for f in sorted(glob.glob(os.path.join(VERIF, "vcgen/contracts/*.py"))):
        importlib.import_module("contracts." + os.path.basename(f)[:-3])
    return spec


# ---------------------------------------------------------------- proving
def prove_one(spec, con, prog, prop, tier, disabled, conn, head=False):
    """Runs one contract in this process and sends the result."""
    import sym
    out = {"fn": con.path, "status": "ok", "obs": [], "summary": [], "con": id(con)}
    t0 = time.time()
    try:
        c = spec.execute(con, prog, disabled)
        out["exec_s"] = round(time.time() - t0, 3)
        out["paths"] = len(c.paths)
        out["inlined"] = sorted(c.ex.inlined)
        out["externals"] = sorted(c.ex.externals)
        out["summaries"] = sorted(c.used)
        cross = tier == "thorough"
        open_ = 0
        for ob in c.obs:
            mine = prop is None or prop in ob.props
            if not mine and not (head and ob.name.startswith("summary")):
                continue
            # where the verdict is settled the other obligations get a short try only, so that it is reported in time
            settled = open_ >= 3 or (open_ and time.time() - t0 > 100)
            v, who, dt, model = spec.discharge(ob, 1000, False, True) if settled else spec.discharge(ob, 20000 if cross else 8000, cross)
            if v != "proved" and (mine or head) and not ob.unmod:
                open_ += 1
            if ob.name.startswith("summary"):
                out["summary"].append(v)
            if not mine:
                continue
            out["obs"].append({"name": ob.name, "path": ob.path_ix, "verdict": v, "by": who, "s": round(dt, 3),
                               "unmod": sorted(ob.unmod)[:8], "model": model if v == "failed" else "",
                               "goal": (" ".join(ob.goal.sexpr().split())[:1500] if v != "proved" else "")})
        if spec.vacuous(c):
            out["status"], out["why"] = "unsupported", "contradictory hypotheses"
    except spec.Lost as e:
        out["status"], out["why"] = "lost", str(e)
    except spec.Unsupported as e:
        out["status"], out["why"] = "unsupported", f"{e} {getattr(e, 'where', '')}"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        out["status"], out["why"] = "error", f"{type(e).__name__}: {str(e)[:200]} at {os.path.basename(tb.filename)}:{tb.lineno}"
    out["s"] = round(time.time() - t0, 3)
    out["queries"] = sym.STATS.queries
    conn.send(out)
    conn.close()


def prove_all(spec, cons, prog, prop, tier, disabled, limit, heads):
    """Every contract in its own process, at most CORES at a time."""
    ctx = mp.get_context("fork")
    todo = sorted(cons, key=lambda c: -c.budget)
    running, results = [], []
    end = time.time() + limit
    while todo or running:
        while todo and len(running) < CORES:
            con = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=prove_one, args=(spec, con, prog, prop, tier, disabled, b, id(con) in heads))
            p.start()
            b.close()
            running.append((p, a, con, time.time()))
        still = []
        for p, a, con, t in running:
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = {"fn": con.path, "status": "error", "why": "prover process died", "obs": [], "summary": [], "con": id(con)}
                p.join()
            elif not p.is_alive() and not a.poll():
                r = {"fn": con.path, "status": "error", "why": "prover process died", "obs": [], "summary": [], "con": id(con)}
            elif time.time() > end or time.time() - t > 3 * con.budget + 120:
                p.kill()
                p.join()
                r = {"fn": con.path, "status": "unsupported", "why": "time budget exceeded", "obs": [], "summary": [], "con": id(con)}
            if r is None:
                still.append((p, a, con, t))
            else:
                results.append(r)
        running = still
        if running:
            time.sleep(0.01)
    return results


# ---------------------------------------------------------------- harness
class Harness:
    def __init__(self, builder):
        self.b = builder
        self.exe, self.err = None, None

    def build(self):
        try:
            self.exe = self.b.harness()
        except Exception as e:
            self.err = f"{type(e).__name__}: {str(e)[-1500:]}"

    def run(self, prop, seed, n, words, seconds):
        """-> dict(cases, fails=[...], distinct)"""
        if self.exe is None:
            return None
        w = os.path.join(VERIF, ".build", f"words-{prop}.json")
        with open(w, "w") as f:
            json.dump(words, f)
        try:
            p = subprocess.run([self.exe, prop, str(seed), str(n), w, str(seconds)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=seconds + 60, text=True, errors="replace", cwd=os.path.join(VERIF, ".build"))
        except subprocess.TimeoutExpired:
            return {"cases": 0, "distinct": 0, "fails": [], "note": "timeout", "samples": []}
        r = {"cases": 0, "distinct": 0, "fails": [], "samples": [], "rc": p.returncode}
        for line in p.stdout.splitlines():
            if line.startswith("FAIL "):
                r["fails"].append(line[5:])
            elif line.startswith("STATS "):
                r.update(json.loads(line[6:]))
            elif line.startswith("SAMPLE "):
                r["samples"].append(line[7:][:400])
        if p.returncode not in (0, 1) and not r["fails"]:
            r["note"] = f"harness ended with {p.returncode}: {p.stderr[-400:]}"
        return r


def words_of(prog, results):
    ws = set()
    if prog is not None:
        ws |= set(prog.literals)
    for r in results:
        for o in r["obs"]:
            for m in re.findall(r"strings: (\[.*\])", o["model"]):
                try:
                    import ast
                    ws |= {s for s in ast.literal_eval(m) if len(s) < 200}
                except Exception:
                    pass
    ws = sorted(w for w in ws if not (len(w) > 30 and " " in w))  # (messages)
    # literals the pinned tree does not have are tried often (this only steers the search for an input)
    try:
        base = set(json.load(open(os.path.join(VERIF, "replay", "literals.json"))))
        new = sorted(set(prog.literals) - base)[:40] if prog is not None else []
    except Exception:
        new = []
    if new:
        ws += new * max(1, int(0.7 * len(ws) / len(new)))
    return ws


# ---------------------------------------------------------------- main
def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.setrecursionlimit(20000)
    import build
    b = build.Builder()
    info = {"repo": "/repo"}
    import mirror
    mirror.main(b.mirror, True)
    h = Harness(b)
    th = threading.Thread(target=h.build)
    prog, dump_err = None, None
    th.start()
    try:
        out = b.dump()
        import mir
        prog = mir.load(out)
    except Exception as e:
        dump_err = f"{type(e).__name__}: {str(e)[-1500:]}"
    spec = load_contracts()
    spec.E.prog = prog
    results, disabled = [], set()
    t1 = time.time()
    cons = [c for c in spec.CONTRACTS if prop in c.props or (prop == "C29" and c.panics)]
    if prog is not None:
        limit = 1500 if tier == "thorough" else 420
        # callers are checked against these contracts; one that does not hold of its body is not used (callers run again)
        heads = {s: [c for c in spec.CONTRACTS if c.path == s] for s in spec.SUMMARIES}
        need = [c for cs in heads.values() for c in cs]
        mine = {id(c) for c in cons}
        extra = [c for c in need if id(c) not in mine] if any(c.uses for c in cons) else []
        both = prove_all(spec, cons + extra, prog, prop, tier, set(), limit, {id(c) for c in need})
        for r in both:
            if r["con"] in {id(c) for c in need} and (r["status"] != "ok" or any(v != "proved" for v in r["summary"])):
                disabled.add(r["fn"])
        results = [r for r in both if r["con"] in mine]
        redo = [c for c in cons if c.uses] if disabled else []
        if tier != "thorough":
            alone = {id(c) for c in cons if not c.uses}
            if any(r["con"] in alone and o["verdict"] != "proved" and not o["unmod"] for r in results for o in r["obs"]):
                redo = []  # the verdict does not depend on the callers any more
        if redo and any(o["verdict"] == "failed" and not o["unmod"] for r in results for o in r["obs"]):
            # an obligation has been refuted: callers need not run again if the code also fails on an input
            th.join()
            first = h.run(prop, seed, 60000, words_of(prog, results), 10)
            if first and first["fails"] and not any(k[0] in x for x in first["fails"] for k in findings(prop)):
                redo = []
        limit = max(60, min(limit, T0 + 640 - time.time())) if tier != "thorough" else limit
        if redo:
            again = {id(c) for c in redo}
            results = [r for r in results if r["con"] not in again] + prove_all(spec, redo, prog, prop, tier, disabled, limit, set())
    prove_s = time.time() - t1
    th.join()

    obs = [(r, o) for r in results for o in r["obs"]]
    failed = [(r, o) for r, o in obs if o["verdict"] != "proved"]
    trusted = [(r, o) for r, o in failed if not o["unmod"]]
    undecided = [r for r in results if r["status"] != "ok"]
    words = words_of(prog, results)
    secs = 60 if tier == "thorough" else 10
    n = 400000 if tier == "thorough" else 60000
    hr = h.run(prop, seed, n, words, secs)
    if hr is not None and not hr["fails"] and (failed or undecided):
        # look harder for a failing input where the proof did not go through
        h2 = h.run(prop, seed + 1000, n * 20, words, 60)
        if h2:
            hr["fails"] += h2["fails"]
            hr["cases"] += h2["cases"]
            hr["distinct"] += h2["distinct"]

    known = []
    if hr is not None and hr["fails"]:
        rest = []
        for x in hr["fails"]:
            k = next((k for k in findings(prop) if k[0] in x), None)
            (known if k else rest).append(k or x)
        hr["fails"] = rest
    violation, suffix = False, ""
    if hr is not None and hr["fails"]:
        violation = True
    elif trusted:
        violation, suffix = True, " no-failing-input-found"

    vdir = os.path.join(VERIF, "evidence")
    os.makedirs(vdir, exist_ok=True)
    replay = os.path.join(vdir, f"{prop}.replay.txt")
    if violation:
        with open(replay, "w") as f:
            f.write(f"property {prop} is violated by /repo's working tree\n\n")
            if hr and hr["fails"]:
                f.write("failing inputs, replayed against the code compiled from /repo:\n")
                for x in hr["fails"][:20]:
                    f.write("  " + x + "\n")
                f.write(f"\nre-run: python3 {VERIF}/vcgen/build.py dump harness; {VERIF}/.build/hb/replay {prop} {seed} {n}\n")
            f.write("\nobligations that are not discharged:\n")
            for r, o in failed:
                f.write(f"  {r['fn']} (path {o['path']}): {o['name']} -- {o['verdict']} by {o['by']}\n")
                f.write(f"    goal: {o['goal']}\n")
                for ln in o["model"].splitlines()[:30]:
                    f.write(f"    {ln}\n")
    ev = evidence(prop, tier, seed, spec, results, obs, failed, undecided, hr, h, b, dump_err, prove_s, violation, disabled)
    with open(os.path.join(vdir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {len(obs)} obligations, {sum(1 for _, o in obs if o['verdict'] == 'proved')} discharged, "
          f"{len(results)} functions, {len(undecided)} undecided; harness {hr['cases'] if hr else 'not built'} cases; {time.time() - T0:.1f}s")
    for r in undecided:
        print(f"  bounded only: {r['fn']}: {r['status']} {r.get('why', '')[:200]}")
    for r, o in failed:
        print(f"  not discharged: {r['fn']} [{o['path']}] {o['name']}: {o['verdict']} {'(depends on unmodelled ' + ', '.join(o['unmod'][:3]) + ')' if o['unmod'] else ''}")
    if hr and hr.get("note"):
        print("  harness:", hr["note"])
    if h.err:
        print("  harness:", h.err[-600:])
    if dump_err:
        print("  dump:", dump_err[-600:])
    for k in sorted(set(known)):
        print(f"KNOWN-FINDING: property={prop} {k[1]}")
    if violation:
        for x in (hr["fails"][:3] if hr else []):
            print("  failing input:", x[:400])
        print(f"VIOLATION property={prop} replay={replay}{suffix}")
        return 1
    if hr is None and (prog is None or undecided or not results):
        print("  no answer: neither the proof nor the replay could be carried out")
        return 2
    return 0


def findings(prop):
    """Open entries of known-findings.txt for this property: (text of the failing input, what fails)."""
    out = []
    for ln in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"open: property=(\S+) match=(\S+) (.*)", ln)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


TRUSTED = [
    "rustc nightly (type checking, MIR construction) and the mirdump driver in /verif/mirdump",
    "the symbolic executor and library models in /verif/vcgen (std, serde_json values, anyhow, http builders)",
    "z3 4.x (python bindings); cvc5 for obligations z3 leaves open and as a cross-check in the thorough tier",
]


def evidence(prop, tier, seed, spec, results, obs, failed, undecided, hr, h, b, dump_err, prove_s, violation, disabled):
    ext = sorted({x for r in results for x in r.get("externals", [])})
    fns = sorted({f for r in results for f in r.get("inlined", [])})
    by = {}
    for _, o in obs:
        if o["verdict"] == "proved":
            by[o["by"]] = by.get(o["by"], 0) + 1
    cov = {
        "obligations": len(obs),
        "discharged": sum(by.values()),
        "checker_cmd": f"python3 check.py {prop} {tier}",
        "trusted_base": TRUSTED,
        "contracted_functions": sorted({r["fn"] for r in results if r["status"] == "ok"}),
        "functions_executed_symbolically": fns,
        "discharged_by": by,
        "solver_s": round(sum(o["s"] for _, o in obs), 2),
        "prove_wall_s": round(prove_s, 1),
        "paths": sum(r.get("paths", 0) for r in results),
        "not_discharged": [f"{r['fn']}: {o['name']} [{o['verdict']}]" for r, o in failed],
        "bounded_only": [f"{r['fn']}: {r['status']} {r.get('why', '')[:160]}" for r in undecided],
        "vacuity": "for every contract some returning path's condition and all axioms used were checked not to be contradictory",
        "summaries_used": sorted({s for r in results for s in r.get("summaries", [])}),
        "summaries_rejected": sorted(disabled),
        "build": b.log,
    }
    if hr is not None:
        cov["bounded_replay"] = {"cases": hr["cases"], "distinct": hr.get("distinct", 0), "samples": hr["samples"][:3], "failing": len(hr["fails"]),
                                 "label": "bounded: executes the compiled code on generated inputs; stands in only where an obligation is missing"}
    if dump_err:
        cov["dump_error"] = dump_err[-500:]
    if h.err:
        cov["harness_error"] = h.err[-500:]
    assume = ["dependency and environment functions are deterministic and do only what their signature says: " + x for x in ext]
    assume += [
        "machine integers are mathematical integers within their type's range (overflow checks of debug builds are executed as panics)",
        "strings are byte sequences; JSON objects are maps without order; allocation never fails; async functions run to completion when polled",
        "types are treated up to references and owning pointers (Box, Arc, Pin, Cow); drop glue has no observable effect",
    ]
    return {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assume,
            "wall_s": round(time.time() - T0, 1), "violations": 1 if violation else 0}


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
