"""Mirrors /repo to a build directory without the parts whose dependencies cannot be fetched here.

josekit is a git dependency: it is replaced by the stub in /verif/stub/josekit, so that
src/core/jwe.rs is checked too (without --jwe it is left out); two examples go.
ssi 0.14 is only an umbrella that re-exports the ssi-* crates, and one of them, ssi-ucan, needs
core2, of which every version is yanked. The mirror depends on the other ssi-* crates directly,
at the versions and with the features ssi 0.14.0 asks for, and paths that go through ssi::
name them instead. Everything else is copied byte for byte, and line numbers stay the same.

A file is rewritten only when its content changed, so that cargo rebuilds incrementally and
never takes an old build for a new one, whatever the timestamps in /repo say."""

import os
import re
import sys

REPO, WORK = os.environ.get("VERIF_REPO", "/repo"), None
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JWE = True
SKIP_DIRS = {".git", "target"}
#: They use josekit, or openid4vp::core::jwe, which does.
OMIT = {
    "examples/verifier-conformance-adapter",
    "examples/wallet-conformance-adapter",
    "Cargo.lock",
}


#: What "ssi = 0.14" stands for: its requirements and default features, without ssi-ucan.
SSI_DEPS = b"\n".join(
    [
        b'ssi-caips = { version = "0.3", default-features = false }',
        b'ssi-claims = { version = "0.6", default-features = false, features = ["w3c", "rsa", "ed25519", "secp256k1", "secp256r1", "eip712"] }',
        b'ssi-core = { version = "0.3.0", default-features = false }',
        b'ssi-crypto = { version = "0.2.1", default-features = false }',
        b'ssi-dids = { version = "0.4", default-features = false, features = ["ripemd-160", "secp256k1", "secp256r1"] }',
        b'ssi-eip712 = { version = "0.1", default-features = false }',
        b'ssi-json-ld = { version = "0.3.1", default-features = false }',
        b'ssi-jwk = { version = "0.4", default-features = false, features = ["ripemd-160"] }',
        b'ssi-multicodec = { version = "0.2", default-features = false }',
        b'ssi-rdf = { version = "0.1", default-features = false }',
        b'ssi-security = { version = "0.1", default-features = false }',
        b'ssi-verification-methods = { version = "0.2", default-features = false }',
    ]
)
SSI_MODULES = set(
    "caips claims core crypto dids eip712 json_ld jwk multicodec rdf security verification_methods".split()
)
#: ssi::prelude, as far as it is known. Another name makes the build fail: add it here.
PRELUDE = {
    name: "ssi_claims::data_integrity::" + name
    for name in "AnyDataIntegrity AnySuite CryptographicSuite DataIntegrity ProofOptions".split()
}
PRELUDE.update(
    (name, "ssi_claims::vc::" + name) for name in ("AnyJsonCredential", "AnyJsonPresentation")
)


def item(text):
    """One path below ssi::, such as "claims::vc" or "prelude::{A, B}", with its white space."""
    m = re.match(r"(\s*)(\w+)", text)
    if m and m.group(2) in SSI_MODULES:
        return m.group(1) + "ssi_" + text[m.end(1) :]
    m = re.match(r"(\s*)prelude::(\w+)", text)
    if m and m.group(2) in PRELUDE:
        return m.group(1) + PRELUDE[m.group(2)] + text[m.end() :]
    m = re.match(r"(\s*)prelude::\{([^{}]*)\}", text)
    if m:
        names = re.sub(r"\w+", lambda n: PRELUDE.get(n.group(), "ssi::prelude::" + n.group()), m.group(2))
        return m.group(1) + "{" + names + "}" + text[m.end() :]
    return re.sub(r"^(\s*)(?=\S)", r"\1ssi::", text)


def group(body):
    """The items of "use ssi::{...}", each with a path of its own."""
    out, depth, start = [], 0, 0
    for i, c in enumerate(body + ","):
        depth += (c == "{") - (c == "}")
        if c == "," and not depth:
            out.append(item(body[start:i]))
            start = i + 1
    return ",".join(out)


def ssi_paths(text):
    out, pos = [], 0
    for m in re.finditer(r"(?<![\w:])(?:::)?ssi::", text):
        if m.start() < pos:
            continue
        out.append(text[pos : m.start()])
        pos = m.end()
        if text[pos : pos + 1] == "{":
            depth, end = 1, pos + 1
            while depth and end < len(text):
                depth += (text[end] == "{") - (text[end] == "}")
                end += 1
            out.append("{" + group(text[pos + 1 : end - 1]) + "}")
        else:
            end = pos + len(re.match(r"(?:prelude::)?(?:\w+|\{[^{}]*\})?", text[pos:]).group())
            out.append(item(text[pos:end]))
        pos = end
    return "".join(out) + text[pos:]


def edit(rel, data):
    if rel == "Cargo.toml":
        data = re.sub(rb"(?m)^josekit\s*=.*$", b'josekit = { path = "stub-josekit" }' if JWE else b"", data)
        data = re.sub(rb"(?ms)^\[workspace\].*?(?=^\[|\Z)", b"", data)
        data += b'\n[workspace]\nmembers = ["openid4vp-frontend"]\n'
        return re.sub(rb'(?m)^ssi = \{ version = "0\.14".*$', SSI_DEPS, data)
    if rel == "src/core/mod.rs" and not JWE:
        data = re.sub(rb"(?m)^pub mod jwe;[ \t]*$", b"", data)
    if rel.endswith(".rs") and b"ssi::" in data:
        try:
            return ssi_paths(data.decode()).encode()
        except UnicodeDecodeError:
            return data
    return data


def files(root):
    for top, dirs, names in os.walk(root):
        rel = os.path.relpath(top, root)
        rel = "" if rel == "." else rel + "/"
        dirs[:] = [
            d for d in dirs if d not in SKIP_DIRS and (root == WORK or rel + d not in OMIT)
        ]
        for n in names:
            if root == WORK and rel + n == "Cargo.lock":
                continue
            if root == WORK or rel + n not in OMIT:
                yield rel + n


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def main(work, jwe=True):
    global WORK, JWE
    WORK, JWE = work, jwe
    wanted = set(files(REPO))
    if "Cargo.toml" not in wanted:
        sys.exit("/repo/Cargo.toml is missing")
    for rel in wanted:
        with open(os.path.join(REPO, rel), "rb") as f:
            put(os.path.join(WORK, rel), edit(rel, f.read()))
    if os.path.isdir(WORK):
        for rel in set(files(WORK)) - wanted:
            if rel.startswith("stub-josekit/"):
                continue
            os.remove(os.path.join(WORK, rel))
    for rel in ("Cargo.toml", "src/lib.rs"):
        with open(os.path.join(VERIF, "stub/josekit", rel), "rb") as f:
            put(os.path.join(WORK, "stub-josekit", rel), f.read())
    lock = "/opt/vp/scope/Cargo.lock"
    if os.path.exists(lock):
        with open(lock, "rb") as f:
            put(os.path.join(WORK, "Cargo.lock"), f.read())


if __name__ == "__main__":
    main(sys.argv[1], "--jwe" in sys.argv)
