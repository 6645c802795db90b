#!/usr/bin/env python3
"""Derive a cargo workspace from /repo's working tree.

/repo/Cargo.toml patches typst/reflexo with git repositories which cannot be fetched offline, so cargo cannot resolve
/repo itself.  This writes .build/ws: a copy (by content: a file is rewritten only when its bytes differ, so cargo's
mtime fingerprints follow what the code *is*) of the members that compile without those git dependencies.
Nothing under /repo is touched.
"""
import os, re, shutil, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = os.path.join(ROOT, ".build", "ws")
# The same for the crates that compile against a stand-in for typst (harness-t/stubs).
WST = os.path.join(ROOT, ".build", "wst")
MEMBERS_T = ["tinymist-derive", "tinymist-l10n", "tinymist-std", "tinymist-vfs", "tinymist-package", "tinymist-world",
             "tinymist-task", "tinymist-project"]
# Highlighting walks typst's syntax trees, which the stand-in does not have.
CUT = {"tinymist-world/src/parser": """//! Cut: highlighting needs typst's syntax trees.
use lsp_types::{SemanticTokenModifier, SemanticTokenType};
use typst::syntax::Source;

pub struct SemanticTokensLegend {
    pub token_types: Vec<SemanticTokenType>,
    pub token_modifiers: Vec<SemanticTokenModifier>,
}
#[derive(Clone, Copy)]
pub enum OffsetEncoding {
    Utf8,
    Utf16,
}
#[derive(Debug)]
pub struct SemanticToken {
    pub delta_line: u32,
    pub delta_start_character: u32,
    pub length: u32,
    pub token_type: u32,
    pub token_modifiers: u32,
}
pub fn get_semantic_tokens_legend() -> SemanticTokensLegend {
    SemanticTokensLegend { token_types: vec![], token_modifiers: vec![] }
}
pub fn get_semantic_tokens_full(_: &Source, _: OffsetEncoding) -> Vec<SemanticToken> {
    vec![]
}
"""}
MEMBERS = ["sync-lsp", "tinymist-assets", "tinymist-derive", "tinymist-l10n", "tinymist-std"]


# Single modules of crates that do not compile as a whole; harness-t/facades has the crates around them.
FACADES = {
    "tinymist-analysis": ["src/location.rs"],
    "tinymist-query": ["src/lsp_typst_boundary.rs"],
    "tinymist": ["src/task/mod.rs", "src/task/format.rs", "src/task/export.rs", "src/actor/editor.rs"],
    # All of it.
    "typst-preview": ["src/"],
}


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def put(p, data):
    if isinstance(data, str):
        data = data.encode()
    if os.path.isfile(p) and not os.path.islink(p) and rd(p) == data:
        return False
    os.makedirs(os.path.dirname(p), exist_ok=True)
    tmp = p + ".tmp~"
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, p)
    return True


def root_manifest():
    out, skip = [], False
    for line in rd(f"{REPO}/Cargo.toml").decode().splitlines():
        if line.startswith("["):
            skip = line.startswith("[patch") or line.startswith("[profile")
        if not skip:
            out.append(line)
    text, n = re.subn(r"(?m)^members\s*=\s*\[[^\]]*\]", 'members = ["crates/*"]', "\n".join(out))
    if n != 1:
        sys.exit("gen_ws: no members in Cargo.toml")
    return text + "\n"


def member_manifest(name):
    text = rd(f"{REPO}/crates/{name}/Cargo.toml").decode()
    if name == "tinymist-std":
        text = re.sub(r"(?m)^(typst|typst-shim)\s*=\s*\{.*optional = true.*\}\n", "", text)
        text = re.sub(r"(?m)^typst\s*=\s*\[.*\]$", "typst = []", text)
        text = re.sub(r'(?m)^(full\s*=.*?),?\s*"typst"', r"\1", text)
    return text


def sync_tree(src, dst, skip=()):
    want = set()
    for base, dirs, files in os.walk(src):
        rel = os.path.relpath(base, src)
        if rel == ".":
            rel = ""
            dirs[:] = [d for d in dirs if d not in ("target", *skip)]
        for f in files:
            r = os.path.join(rel, f)
            if r in skip:
                continue
            want.add(r)
            p = os.path.join(base, f)
            if os.path.islink(p) and not os.path.exists(p):
                continue
            put(os.path.join(dst, r), rd(p))
    return want


def plain_manifest(name):
    return rd(f"{REPO}/crates/{name}/Cargo.toml")


def generate(ws, members, manifest):
    for m in members:
        src, dst = f"{REPO}/crates/{m}", f"{ws}/crates/{m}"
        os.makedirs(dst, exist_ok=True)
        cut = {k.split("/", 1)[1]: v for k, v in CUT.items() if k.split("/")[0] == m}
        want = sync_tree(src, dst, skip=("Cargo.toml", *(f"{d}/{f}" for d in cut for f in os.listdir(f"{src}/{d}"))))
        for d, text in cut.items():
            put(f"{dst}/{d}/mod.rs", text)
            want.add(f"{d}/mod.rs")
        put(f"{dst}/Cargo.toml", manifest(m))
        want.add("Cargo.toml")
        for base, _, files in os.walk(dst):
            for f in files:
                p = os.path.join(base, f)
                if os.path.relpath(p, dst) not in want:
                    os.unlink(p)
    put(f"{ws}/Cargo.toml", root_manifest())


def main():
    generate(WS, MEMBERS, member_manifest)
    generate(WST, MEMBERS_T, plain_manifest)
    for m, files in FACADES.items():
        src, dst = f"{ROOT}/harness-t/facades/{m}", f"{WST}/crates/{m}"
        want = sync_tree(src, dst)
        for f in files:
            if f.endswith("/"):
                want |= {f + w for w in sync_tree(f"{REPO}/crates/{m}/{f}", f"{dst}/{f}")}
                continue
            if not os.path.isfile(f"{REPO}/crates/{m}/{f}"):
                f2 = f.replace("/mod.rs", ".rs") if f.endswith("/mod.rs") else f.replace(".rs", "/mod.rs")
                if os.path.isfile(f"{REPO}/crates/{m}/{f2}"):
                    f = f2
            put(f"{dst}/{f}", rd(f"{REPO}/crates/{m}/{f}"))
            want.add(f)
        for base, _, names in os.walk(dst):
            for f in names:
                p = os.path.join(base, f)
                if os.path.relpath(p, dst) not in want:
                    os.unlink(p)
    shim = f"{WST}/crates/typst-shim"
    put(f"{shim}/Cargo.toml", '[package]\nname = "typst-shim"\nversion.workspace = true\nedition.workspace = true\n')
    put(f"{shim}/src/lib.rs", "//! Nothing of the shim is needed here.\n")


if __name__ == "__main__":
    main()
