"""Builds everything a check needs from /repo's current working tree, inside /verif/.build."""
import fcntl
import glob
import json
import os
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
PRE = "/opt/vp/work/target/debug"


class BuildError(Exception):
    pass


def env(toolchain):
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", RUST_BACKTRACE="0", CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.pop("RUSTFLAGS", None)
    return e


STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly"


def run(cmd, e, cwd=None, timeout=800):
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", timeout=timeout)
    return p.returncode, p.stdout


def newer(out, *srcs):
    return os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(s) for s in srcs)


class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.lock = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.mirror = os.path.join(BUILD, "mirror")
        self.log = {}
        self.jwe = True

    # ------------------------------------------------------------ MIR of the current source
    def dump(self):
        """-> directory with the MIR dump; raises BuildError if /repo does not compile."""
        t0 = time.time()
        import mirror
        mirror.main(self.mirror, True)
        out = os.path.join(BUILD, "out")
        os.makedirs(out, exist_ok=True)
        e = env(NIGHTLY)
        sysroot = subprocess.check_output(["rustc", "--print", "sysroot"], env=e, text=True).strip()
        binp = os.path.join(BUILD, "mirdump")
        src = os.path.join(VERIF, "mirdump/main.rs")
        err = []

        def compile_driver():
            if newer(binp, src):
                return
            tmp = binp + ".tmp"
            rc, o = run(["rustc", "-O", "--edition", "2024", "-o", tmp, src], e)
            if rc:
                err.append(o)
                open(binp + ".failed", "w").close()
            else:
                os.rename(tmp, binp)
        for f in (binp + ".failed",):
            if os.path.exists(f):
                os.remove(f)
        if not newer(binp, src) and os.path.exists(binp):
            os.remove(binp)
        wrap = os.path.join(BUILD, "wrap.sh")
        with open(wrap, "w") as f:
            f.write(f"#!/bin/bash\nwhile [ ! -e {binp} ] && [ ! -e {binp}.failed ]; do sleep 0.1; done\nexec {binp} \"$@\"\n")
        os.chmod(wrap, 0o755)
        th = threading.Thread(target=compile_driver)
        th.start()
        e2 = dict(e)
        e2.update(CARGO_PROFILE_DEV_DEBUG="0", RUSTC_WORKSPACE_WRAPPER=wrap, MIRDUMP_OUT=out,
                  CARGO_TARGET_DIR=os.path.join(BUILD, "tn"), LD_LIBRARY_PATH=sysroot + "/lib")
        cmd = ["cargo", "check", "--lib", "--all-features", "--offline"]
        for attempt in (True, False):
            for f in glob.glob(out + "/*.json"):
                os.remove(f)
            for f in ("src/lib.rs", "openid4vp-frontend/src/lib.rs", "stub-josekit/src/lib.rs"):
                os.utime(os.path.join(self.mirror, f))
            rc, o = run(cmd, e2, self.mirror)
            if rc == 0:
                break
            # perhaps only jwe.rs does not build against the stub
            mirror.main(self.mirror, False)
            self.jwe = False
        th.join()
        if err:
            raise BuildError("mirdump: " + err[0][-2000:])
        if rc:
            raise BuildError("cargo check: " + o[-2000:])
        self.log["dump_s"] = round(time.time() - t0, 1)
        return out

    # ------------------------------------------------------------ replay harness
    def externs(self, pat):
        """Direct dependencies of a prebuilt unit -> {name: rlib}."""
        fp = PRE + "/.fingerprint"
        js = [f for f in glob.glob(fp + "/openid4vp-*/" + pat)]
        if not js:
            raise BuildError("no prebuilt dependencies")
        byhash = {}
        for d in os.listdir(fp):
            for f in os.listdir(os.path.join(fp, d)):
                if f.startswith("lib-") and not f.endswith(".json"):
                    h = open(os.path.join(fp, d, f)).read().strip()
                    byhash[h] = (f[4:], d.rsplit("-", 1)[1])
        out = {}
        for j in js:
            for dep in json.load(open(j))["deps"]:
                name, h = dep[1], dep[3]
                hx = int(h).to_bytes(8, "little").hex()
                if hx not in byhash:
                    continue
                lib, suffix = byhash[hx]
                for ext in ("rlib", "so"):
                    p = f"{PRE}/deps/lib{lib}-{suffix}.{ext}"
                    if os.path.exists(p):
                        out[name] = p
        return out

    def harness(self):
        """Compiles the library (stable, prebuilt dependencies) and the replay harness -> binary."""
        t0 = time.time()
        out = os.path.join(BUILD, "hb")
        os.makedirs(out, exist_ok=True)
        e = env(STABLE)
        lib_ext = self.externs("lib-openid4vp.json")
        e2e_ext = self.externs("test-integration-test-e2e.json")
        common = ["--edition", "2021", "-C", "opt-level=0", "-C", "debuginfo=0", "-C", "codegen-units=8", "--cap-lints", "allow",
                  "-C", "debug-assertions=on", "-C", "overflow-checks=on",
                  "-L", f"dependency={PRE}/deps", "-L", f"dependency={out}"]
        for d in glob.glob(PRE + "/build/*/out"):
            common += ["-L", "native=" + d]

        def ext(m, names=None):
            r = []
            for k, v in m.items():
                if names is None or k in names:
                    r += ["--extern", f"{k}={v}"]
            return r
        m = self.mirror
        procs = []

        def rustc(args):
            rc, o = run(["rustc"] + common + args, e)
            if rc:
                raise BuildError("harness: " + o[-3000:])
        need = []
        if self.jwe:
            need.append(lambda: rustc(["--crate-name", "josekit", "--crate-type", "rlib", m + "/stub-josekit/src/lib.rs",
                                       "-o", out + "/libjosekit.rlib"] + ext({**e2e_ext, **lib_ext}, {"serde", "serde_json", "anyhow", "thiserror"})))
        need.append(lambda: rustc(["--crate-name", "openid4vp_frontend", "--crate-type", "rlib", m + "/openid4vp-frontend/src/lib.rs",
                                   "-o", out + "/libopenid4vp_frontend.rlib"] + ext({**e2e_ext, **lib_ext}, {"serde", "serde_json", "anyhow"})))
        errs = []

        def guard(f):
            try:
                f()
            except BuildError as x:
                errs.append(x)
        ths = [threading.Thread(target=guard, args=(f,)) for f in need]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if errs:
            raise errs[0]
        lib_ext.pop("openid4vp_frontend", None)
        mine = {"openid4vp_frontend": out + "/libopenid4vp_frontend.rlib"}
        if self.jwe:
            mine["josekit"] = out + "/libjosekit.rlib"
        rustc(["--crate-name", "openid4vp", "--crate-type", "rlib", m + "/src/lib.rs", "-o", out + "/libopenid4vp.rlib"]
              + ext(lib_ext) + ext(mine))
        e2e_ext.pop("openid4vp", None)
        allx = {**e2e_ext, **lib_ext, **mine, "openid4vp": out + "/libopenid4vp.rlib"}
        exe = out + "/replay"
        rustc(["--crate-name", "replay", "--crate-type", "bin", os.path.join(VERIF, "replay/main.rs"), "-o", exe]
              + ext(allx) + (["--cfg", "jwe"] if self.jwe else []))
        self.log["harness_s"] = round(time.time() - t0, 1)
        return exe


if __name__ == "__main__":
    b = Builder()
    if "dump" in sys.argv:
        print(b.dump())
    else:
        import mirror
        mirror.main(b.mirror, True)
    if "harness" in sys.argv:
        print(b.harness())
    print(b.log)
