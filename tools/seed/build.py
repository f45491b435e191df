#!/usr/bin/env python3
"""Writes /verif/seeded/<id> from bugs/*.py and (with --check) confirms each in a scratch way:
applies it to /repo, builds, runs the tests, the demonstration and the property's check, and undoes it."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
BUGS = {}


def load():
    for f in sorted(glob.glob(HERE + "/bugs/*.py")):
        spec = importlib.util.spec_from_file_location("b", f)
        m = importlib.util.module_from_spec(spec)
        m.bug = lambda id, prop, edits, demo, needs, breaks: BUGS.__setitem__(id, (prop, edits, demo, needs, breaks))
        spec.loader.exec_module(m)


def write(id):
    prop, edits, demo, needs, breaks = BUGS[id]
    d = f"{VERIF}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
        for path, old, new, *n in edits:
            p = f"{tmp}/r/{path}"
            s = open(p).read()
            k = n[0] if n else 1
            assert s.count(old) == (k if k > 0 else 2), f"{id}: {path}: {old!r} occurs {s.count(old)} times"
            s = s.replace(old, new) if k > 0 else s[::-1].replace(old[::-1], new[::-1], 1)[::-1]
            open(p, "w").write(s)
        patch = subprocess.check_output(["git", "-C", tmp + "/r", "diff"], text=True)
    finally:
        shutil.rmtree(tmp)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.rs", "w").write("mod common;\nuse common::*;\n\n" + demo.strip() + "\n")
    for f in ("demo.sh", "externs.py", "common.rs"):
        shutil.copy(f"{HERE}/{f}", d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def confirm(id, check=True):
    d = f"{VERIF}/seeded/{id}"
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", []) or [])
    res = []
    sh(["bash", "/opt/vp/build.sh"])
    p = sh(["bash", d + "/demo.sh"], cwd="/repo")
    res.append("demo-clean " + ("ok" if p.returncode == 0 else "BAD rc=%d\n%s" % (p.returncode, p.stdout[-1500:])))
    p = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    if p.returncode:
        return id + " patch does not apply " + p.stdout
    try:
        p = sh(["bash", "/opt/vp/build.sh"])
        if p.returncode:
            return id + " BUILD FAILS " + p.stdout[-1500:]
        sh(["bash", "/opt/vp/test.sh", "/tmp/w/t.json"])
        t = json.load(open("/tmp/w/t.json"))
        failed = t.get("failed", [])
        res.append("tests " + ("ok" if not failed else "FAIL " + str(failed)[:300]))
        p = sh(["bash", d + "/demo.sh"], cwd="/repo")
        res.append("demo-bug " + ("ok" if p.returncode not in (0, 3) else "BAD rc=%d %s" % (p.returncode, p.stdout[-800:])))
        if check:
            prop = json.load(open(d + "/meta.json"))["property"]
            p = sh(["python3-vt", "check.py", prop], cwd=VERIF)
            v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append(f"check rc={p.returncode} {(v or [''])[0][-90:]}")
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."])
    return id + ": " + "; ".join(res)


if __name__ == "__main__":
    load()
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(BUGS)
    for i in ids:
        write(i)
    if "--check" in sys.argv or "--nocheck" in sys.argv:
        for i in ids:
            print(confirm(i, "--check" in sys.argv), flush=True)
