#!/usr/bin/env python3
"""Writes the behaviour-preserving edits in refactors/*.py as diffs into a directory: refac.py OUTDIR"""
import glob, importlib.util, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
out = sys.argv[1]
os.makedirs(out, exist_ok=True)
tmp = tempfile.mkdtemp()
subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
lst = open(out + "/list", "w")


def ref(name, props, edits):
    for path, old, new, *n in edits:
        p = f"{tmp}/r/{path}"
        s = open(p).read()
        assert s.count(old) == (n[0] if n else 1), f"{name}: {path}: {old!r} occurs {s.count(old)} times"
        open(p, "w").write(s.replace(old, new))
    d = subprocess.check_output(["git", "-C", tmp + "/r", "diff"], text=True)
    subprocess.check_call(["git", "-C", tmp + "/r", "checkout", "-q", "--", "."])
    open(f"{out}/{name}.diff", "w").write(d)
    lst.write(f"{out}/{name}.diff:{props}\n")


try:
    for f in sorted(glob.glob(HERE + "/refactors/*.py")):
        spec = importlib.util.spec_from_file_location("b", f)
        m = importlib.util.module_from_spec(spec)
        m.ref = ref
        spec.loader.exec_module(m)
finally:
    shutil.rmtree(tmp)
