#!/usr/bin/env python3
"""Derives the second workspace, build/ws2: the compiler crates of /repo.

They depend on crates that are not available offline (typst, notify, reqwest,
...). Each of them gets a stand-in (sim2/stubs), and each crate of /repo a
manifest that names those (sim2/manifests); cargo compiles the files of /repo
as they are, but for the few that sim2/override replaces because they do
nothing but call what is stubbed (font search, highlighting, exporting).
"""
import os
import re
import shutil

import prepare
from prepare import BUILD, REPO, VERIF, PROFILE, link, read, tree_hash, write

WS = f"{BUILD}/ws2"
SIM = f"{VERIF}/sim2"
MEMBERS = ["tinymist-std", "tinymist-vfs", "tinymist-package", "tinymist-world", "tinymist-task",
           "tinymist-project", "tinymist-l10n", "tinymist-derive", "sync-lsp", "tinymist-assets",
           "tinymist-analysis", "tinymist-query", "typst-preview", "tinymist"]

ALIASES = ["reflexo", "reflexo-typst", "reflexo-vec2svg", "typst-svg", "typst-html", "typst-render",
           "tinymist-render", "typlite", "typstyle-core", "typstfmt", "itertools", "strum",
           "serde_yaml", "open", "regex"]


def lay(src, over, dst):
    """Links what is in src into dst, with what is in over taking precedence."""
    os.makedirs(dst, exist_ok=True)
    names = set(os.listdir(src)) if os.path.isdir(src) else set()
    onames = set(os.listdir(over)) if os.path.isdir(over) else set()
    names -= {"Cargo.toml", "target"}
    for entry in set(os.listdir(dst)) - {"Cargo.toml"} - names - onames:
        p = f"{dst}/{entry}"
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    for entry in names | onames:
        s, o, d = f"{src}/{entry}", f"{over}/{entry}", f"{dst}/{entry}"
        if os.path.isdir(o):
            if os.path.islink(d):
                os.unlink(d)
            lay(s, o, d)
        else:
            if os.path.isdir(d) and not os.path.islink(d):
                shutil.rmtree(d)
            link(o if os.path.exists(o) else s, d)


def root_manifest():
    text = prepare.root_manifest()
    # the local crates are named by path in every manifest
    text = re.sub(r'(?m)^[a-z0-9-]+\s*=\s*\{\s*path\s*=.*\}\n', "", text)
    return text


def main():
    os.makedirs(f"{WS}/crates", exist_ok=True)
    for name in MEMBERS:
        src, dst, over = f"{REPO}/crates/{name}", f"{WS}/crates/{name}", f"{SIM}/override/{name}"
        lay(src, over, dst)
        own = f"{SIM}/manifests/{name}.toml"
        h = tree_hash(src) + (tree_hash(over) if os.path.isdir(over) else "")
        text = read(own) if os.path.isfile(own) else prepare.member_manifest(name)
        write(f"{dst}/Cargo.toml", text + f"\n# source-hash {h}\n")
        hf = f"{BUILD}/hash2/{name}"
        if not os.path.isfile(hf) or read(hf) != h:
            prepare.purge(name)
            write(hf, h)
    for name in sorted(os.listdir(f"{SIM}/stubs")):
        link(f"{SIM}/stubs/{name}", f"{WS}/crates/stub-{name}")
    # one crate stands in for several, under each of their names
    for name in ALIASES:
        d = f"{WS}/crates/alias-{name}"
        write(f"{d}/Cargo.toml", f'[package]\nname = "alias-{name}"\nversion = "0.0.0"\nedition = "2021"\n\n'
              '[dependencies]\nstub-misc = { path = "../stub-misc" }\n')
        write(f"{d}/src/lib.rs", "pub use stub_misc::*;\n")
    link(f"{VERIF}/sim/rt", f"{WS}/crates/vsim-rt")
    link(f"{SIM}/harness", f"{WS}/crates/vsim2-harness")
    write(f"{WS}/Cargo.toml", root_manifest())
    stamp = f"{WS}/Cargo.lock.orig"
    orig = f"{SIM}/Cargo.lock" if os.path.isfile(f"{SIM}/Cargo.lock") else f"{REPO}/Cargo.lock"
    if not os.path.isfile(f"{WS}/Cargo.lock") or not os.path.isfile(stamp) or read(stamp) != read(orig):
        shutil.copyfile(orig, f"{WS}/Cargo.lock")
        shutil.copyfile(orig, stamp)


if __name__ == "__main__":
    main()
