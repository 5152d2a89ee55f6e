#!/usr/bin/env python3
"""Derives the simulation workspace build/ws from /repo's working tree.

/repo's own workspace cannot be resolved offline (git patches), so, as
/opt/vp/mkws.py does, every crate under test gets a manifest derived from the
one in /repo and symlinks to /repo's sources: cargo compiles the files of /repo
as they are. The harness crates are symlinked in as further members.
"""
import hashlib
import os
import re
import shutil
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSIM_REPO", "/repo")
BUILD = os.environ.get("VSIM_BUILD", f"{VERIF}/build")
WS = f"{BUILD}/ws"
MEMBERS = ["sync-lsp", "tinymist-std", "tinymist-l10n", "tinymist-derive"]
# edition of the instrumented crates' profile: no optimisation, so that every
# call and every branch is a basic block, hence a scheduling point
PROFILE = """
[profile.dev]
opt-level = 0
debug = 0
debug-assertions = true
overflow-checks = true
incremental = false
codegen-units = 64
[profile.dev.package."*"]
opt-level = 0
[profile.dev.package.simrt]
opt-level = 2
debug-assertions = false
overflow-checks = false
"""


def read(path):
    with open(path, encoding="utf-8") as f:
        return f.read()


def write(path, text):
    if not os.path.isfile(path) or read(path) != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)


def root_manifest():
    out, skip = [], False
    for line in read(f"{REPO}/Cargo.toml").splitlines():
        if line.startswith("["):
            skip = line.startswith("[patch") or line.startswith("[profile")
        if not skip:
            out.append(line)
    text, n = re.subn(r"(?m)^members\s*=\s*\[[^\]]*\]", 'members = ["crates/*"]', "\n".join(out))
    if n != 1:
        sys.exit("prepare.py: no members in /repo/Cargo.toml")
    text = re.sub(r"(?m)^default-members\s*=\s*\[[^\]]*\]\n?", "", text)
    return text + "\n" + PROFILE


def member_manifest(name):
    text = read(f"{REPO}/crates/{name}/Cargo.toml")
    # no dev-dependencies and no lints here: only the library is built
    text = re.sub(r"(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?ms)^\[\[bin\]\].*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?ms)^\[lints\].*?(?=^\[|\Z)", "", text)
    if name == "tinymist-std":
        text = re.sub(r"(?m)^(typst|typst-shim)\s*=\s*\{.*optional = true.*\}\n", "", text)
        text = re.sub(r'(?m)^typst\s*=\s*\[.*\]$', "typst = []", text)
        text = re.sub(r'(?m)^(full\s*=.*?),?\s*"typst"', r"\1", text)
    return text


def link(src, dst):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    if os.path.lexists(dst):
        os.unlink(dst)
    os.symlink(src, dst)


def tree_hash(root):
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(root, followlinks=True)):
        dirs.sort()
        if "target" in dirs:
            dirs.remove("target")
        for f in sorted(files):
            p = os.path.join(d, f)
            try:
                with open(p, "rb") as fh:
                    h.update(p.encode() + b"\0" + fh.read() + b"\0")
            except OSError:
                pass
    return h.hexdigest()


def main():
    os.makedirs(f"{WS}/crates", exist_ok=True)
    for name in MEMBERS:
        src, dst = f"{REPO}/crates/{name}", f"{WS}/crates/{name}"
        os.makedirs(dst, exist_ok=True)
        want = set(os.listdir(src)) - {"Cargo.toml", "target"}
        for entry in set(os.listdir(dst)) - {"Cargo.toml"} - want:
            os.unlink(f"{dst}/{entry}")
        for entry in want:
            link(f"{src}/{entry}", f"{dst}/{entry}")
        h = tree_hash(src)
        write(f"{dst}/Cargo.toml", member_manifest(name) + f"\n# source-hash {h}\n")
        # cargo looks at mtimes; a change of content with an old mtime (git
        # checkout, patch, touch -d) must be seen too
        hf = f"{BUILD}/hash/{name}"
        if not os.path.isfile(hf) or read(hf) != h:
            purge(name)
            write(hf, h)
    for name in ["rt", "harness"]:
        link(f"{VERIF}/sim/{name}", f"{WS}/crates/vsim-{name}")
    write(f"{WS}/Cargo.toml", root_manifest())
    stamp = f"{WS}/Cargo.lock.orig"
    orig = f"{VERIF}/sim/Cargo.lock" if os.path.isfile(f"{VERIF}/sim/Cargo.lock") else f"{REPO}/Cargo.lock"
    if not os.path.isfile(f"{WS}/Cargo.lock") or not os.path.isfile(stamp) or read(stamp) != read(orig):
        shutil.copyfile(orig, f"{WS}/Cargo.lock")
        shutil.copyfile(orig, stamp)


def purge(name):
    """Removes the fingerprints of one member, so that cargo compiles it again."""
    pk = re.search(r'(?m)^name\s*=\s*"([^"]+)"', read(f"{REPO}/crates/{name}/Cargo.toml")).group(1)
    fp = f"{BUILD}/target/debug/.fingerprint"
    if os.path.isdir(fp):
        for e in os.listdir(fp):
            if re.fullmatch(re.escape(pk) + r"-[0-9a-f]{16}", e):
                shutil.rmtree(f"{fp}/{e}")


if __name__ == "__main__":
    main()
