#!/usr/bin/env python3
"""Mirror /repo into /verif/work/over: real directories, one symlink per file.

Everything compiled is /repo's own working tree (rustc follows the links); the
mirror only exists so that the generated, git-ignored lib/prelude.blob can sit
beside lib/prelude.eu without writing into /repo.

Prints the SHA-256 over (path, content) of everything mirrored, so that the
build does not depend on file times."""
import hashlib, os, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
OVER = sys.argv[1]
SKIP = {".git", "target", "fuzz", "tests", "docs", ".github", "editors", "benches", "node_modules"}
OWN = {"lib/prelude.blob"}

def main():
    want = {}
    for base, dirs, files in os.walk(REPO):
        rel = os.path.relpath(base, REPO)
        if rel == ".":
            rel = ""
            dirs[:] = [d for d in dirs if d not in SKIP]
        dirs.sort()
        for f in files:
            r = os.path.join(rel, f)
            if r in OWN:
                continue
            want[r] = os.path.join(base, f)
    # xtask includes this one by path
    for base, dirs, files in os.walk(os.path.join(REPO, "tests/diagnostics")):
        for f in files:
            if f.endswith(".rs"):
                p = os.path.join(base, f)
                want[os.path.relpath(p, REPO)] = p
    # criterion bench target is declared in Cargo.toml: give it its file
    for r in ("benches/benches.rs",):
        p = os.path.join(REPO, r)
        if os.path.exists(p):
            want[r] = p
    # remove stale links
    for base, dirs, files in os.walk(OVER):
        for f in files:
            p = os.path.join(base, f)
            r = os.path.relpath(p, OVER)
            if r in OWN:
                continue
            if r not in want:
                os.unlink(p)
    h = hashlib.sha256()
    for r in sorted(want):
        src, dst = want[r], os.path.join(OVER, r)
        if not (os.path.islink(dst) and os.readlink(dst) == src):
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            if os.path.lexists(dst):
                os.unlink(dst)
            os.symlink(src, dst)
        h.update(r.encode() + b"\0")
        with open(src, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    print(h.hexdigest())

main()
