#!/usr/bin/env python3
"""Makes a cargo workspace that is a view of /repo without what needs unavailable git dependencies
(the same view as the sandbox's build, but in a directory of our own, and without the tests crate).

Every file in it is a symlink into /repo, but for those named in FILTERS: they are
written anew from /repo on each run, with only the lines taken out (or the module
declarations narrowed) that the function says. Rust lines taken out become empty, so
line numbers are those of /repo. Nothing is added in place of a
missing dependency. A filtered file is rewritten only when its content changes, so
that cargo stays incremental. With `full`, nothing of mpc-core is left out and the missing
crates are replaced by the declarations in stubs/ (for type-checking only).
"""
import os
import re
import shutil
import sys

REPO, WS = os.environ.get("VERIF_REPO", "/repo"), None
#: Needed by the modules that are left out, or by the left-out workspace members.
MISSING_DEPS = {"fancy-garbling", "scuttlebutt"}


def drop_mods(*names):
    mod = re.compile(r"^\s*(?:pub(?:\([a-z]+\))?\s+)?mod (?:%s);\s*$" % "|".join(names))

    def f(text):
        out = []
        for line in text.splitlines(keepends=True):
            if mod.match(line):
                k = len(out)
                while k and out[k - 1].strip().startswith("#["):
                    k -= 1
                    out[k] = "\n"  # the attributes of that declaration
                line = "\n"
            out.append(line)
        return "".join(out)

    return f


def drop_rep3_items(text):
    """Takes out the top-level items that mention Rep3 (rustfmt ends an item with a closing line in column 0).

    From a use with a list only the names that mention it go. Nested modules (mod tests) are kept as they are.
    """
    rep3 = re.compile(r"rep3", re.I)
    out, item = [], []

    def flush():
        body = "".join(line for line in item if not line.lstrip().startswith("//"))
        if not rep3.search(body):
            out.extend(item)
        elif re.search(r"^(?:pub(?:\([a-z]+\))? )?use [^{}]*\{[^{}]*\};", body, flags=re.M):
            head, names, tail = re.match(r"(.*?\{)([^{}]*)(\};.*)", body, flags=re.S).groups()
            if not rep3.search(head):
                kept = [n.strip() for n in names.split(",") if n.strip() and not rep3.search(n)]
                new = head + ", ".join(kept) + tail
                out.append("\n" * (len(item) - new.count("\n")) + new)
            else:
                out.extend(["\n"] * len(item))
        else:
            out.extend(["\n"] * len(item))

    for line in text.splitlines(keepends=True):
        item.append(line)
        opener = line.startswith(("#", "/"))
        if not opener and (line.strip() == "" or re.match(r"\S.*;\s*$", line) or re.match(r"\}[;,]?\s*$", line)
                           or re.match(r"\S.*\}\s*$", line)):
            # A blank line ends an item only outside braces, and the body is indented: see whether one is open.
            text_ = "".join(l for l in item if not l.lstrip().startswith("//"))
            if line.strip() == "" and text_.strip() and not text_.strip().startswith("#!"):
                continue
            flush()
            item = []
    flush()
    return "".join(out)


def root_manifest(text):
    keep = '"co-circom/co-circom-types",\n "co-circom/co-groth16",\n "co-circom/co-plonk",\n "mpc-core",\n "mpc-net",\n'
    return re.sub(r"members\s*=\s*\[.*?\]", lambda _: "members = [\n %s]" % keep, text, count=1, flags=re.S)


def core_manifest(text):
    return "".join(
        line for line in text.splitlines(keepends=True)
        if re.split(r"[\s.=]", line, maxsplit=1)[0] not in MISSING_DEPS
    )


def tests_manifest(text):
    """Only what cannot resolve: the deps on workspace members that are left out, and on noir."""
    gone = {
        "acir", "noirc-artifacts", "circom-mpc-compiler", "circom-mpc-vm", "co-acvm", "co-circom-types",
        "co-builder", "co-groth16", "co-noir", "co-noir-types", "noir-types", "co-plonk", "co-ultrahonk",
        "co-noir-common",
    }
    out, skip = [], False
    for line in text.splitlines(keepends=True):
        if skip:
            skip = not line.startswith("]")
            continue
        if re.split(r"[\s.=]", line, maxsplit=1)[0] in gone:
            skip = line.rstrip().endswith("[")
            continue
        out.append(line)
    return "".join(out)


def protocols(text):
    """Of rep3 and rep3_ring only the submodules that reach no garbling code."""
    text = drop_mods("bridges")(text)
    text = re.sub(r"^pub mod rep3;$", " ".join(REP3.split()), text, flags=re.M)
    return re.sub(r"^pub mod rep3_ring;$", "pub mod rep3_ring { pub mod ring; }", text, flags=re.M)


REP3 = """pub mod rep3 {
    pub mod arithmetic { mod ops; pub(super) mod types; }
    pub mod binary { mod ops; pub(super) mod types; }
    pub mod id;
    pub mod network;
    pub mod pointshare { mod ops; pub(super) mod types; }
    pub mod yao { pub mod bristol_fashion; }
    pub use arithmetic::types::Rep3PrimeFieldShare;
    pub use binary::types::Rep3UintShare;
    pub use pointshare::types::Rep3PointShare;
}"""


def poseidon2(text):
    text = drop_mods("rep3", "poseidon2_circom_accelerator", "poseidon2_shamir_circom_accelerator")(text)
    return re.sub(r"^pub use poseidon2_(?:shamir_)?circom_accelerator::.*\n", "\n", text, flags=re.M)


def bristol(text):
    return re.sub(r"^impl From<CircuitExecutionError> for fancy_garbling::.*?^\}\n", lambda m: "\n" * m[0].count("\n"), text, flags=re.M | re.S)


FILTERS = {
    "Cargo.toml": root_manifest,
    "mpc-core/Cargo.toml": core_manifest,
    "mpc-core/src/protocols.rs": protocols,
    "mpc-core/src/gadgets/merkle_tree/mod.rs": drop_mods("rep3"),
    "mpc-core/src/gadgets/poseidon2/mod.rs": poseidon2,
    "mpc-core/src/protocols/rep3/yao/bristol_fashion/mod.rs": bristol,
    "co-circom/co-circom-types/src/lib.rs": drop_rep3_items,
    "co-circom/co-groth16/src/lib.rs": drop_rep3_items,
    "co-circom/co-groth16/src/groth16.rs": drop_rep3_items,
    "co-circom/co-groth16/src/mpc.rs": drop_rep3_items,
    "co-circom/co-plonk/src/lib.rs": drop_rep3_items,
    "co-circom/co-plonk/src/mpc.rs": drop_rep3_items,
    "tests/Cargo.toml": tests_manifest,
    "tests/tests/mpc/main.rs": drop_mods("bridges", "rep3", "rep3_ring"),
}
#: What the view shows of /repo. tests/src and the circom and noir test binaries need the missing crates.
TREES = ["co-circom/co-circom-types", "co-circom/co-groth16", "co-circom/co-plonk", "mpc-core", "mpc-net", "README.md"]
SKIP = {"mpc-core/benches"}


#: the second view: all of mpc-core, co-circom-types, co-groth16 and co-plonk, type-checked against the type surface of the two missing crates
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs")


def core_manifest_full(text):
    return "".join(
        "%s = { path = \"%s\" }\n" % (k, os.path.join(STUBS, k)) if k in MISSING_DEPS else line
        for line in text.splitlines(keepends=True) for k in [re.split(r"[\s.=]", line, maxsplit=1)[0]]
    )


def main(ws, full=False):
    global WS, FILTERS
    WS = ws
    if full:
        FILTERS = {"Cargo.toml": root_manifest, "mpc-core/Cargo.toml": core_manifest_full}
    want = {}
    for tree in TREES:
        top = os.path.join(REPO, tree)
        if os.path.isfile(top):
            want[tree] = None
        for dirpath, dirs, files in os.walk(top):
            rel = os.path.relpath(dirpath, REPO)
            dirs[:] = [d for d in dirs if d != "target" and os.path.join(rel, d) not in SKIP]
            for name in files:
                want[os.path.join(rel, name)] = None
    for rel, fn in FILTERS.items():
        if os.path.isfile(os.path.join(REPO, rel)):
            want[rel] = fn

    # Benches are not shown, so their declarations go too.
    benches = lambda t: re.sub(r"^\[\[bench\]\]\n(?:[^\[\n].*\n)*\n?", "", t, flags=re.M)

    for rel, fn in want.items():
        src, dst = os.path.join(REPO, rel), os.path.join(WS, rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if fn is None:
            if not (os.path.islink(dst) and os.readlink(dst) == src):
                if os.path.lexists(dst):
                    os.remove(dst)
                os.symlink(src, dst)
            continue
        with open(src, encoding="utf-8") as f:
            text = fn(f.read())
        if rel == "mpc-core/Cargo.toml":
            text = benches(text)
        if os.path.islink(dst):
            os.remove(dst)
        try:
            with open(dst, encoding="utf-8") as f:
                same = f.read() == text
        except FileNotFoundError:
            same = False
        if not same:
            with open(dst, "w", encoding="utf-8") as f:
                f.write(text)

    for dirpath, dirs, files in os.walk(WS, topdown=False):
        for name in files:
            rel = os.path.relpath(os.path.join(dirpath, name), WS)
            if rel not in want and rel != "Cargo.lock":
                os.remove(os.path.join(dirpath, name))
        if dirpath != WS and not os.listdir(dirpath):
            os.rmdir(dirpath)

    vectors = os.path.join(WS, "test_vectors")
    if not os.path.islink(vectors):
        os.symlink(os.path.join(REPO, "test_vectors"), vectors)

    # Always start from /repo's lock file: cargo drops the packages nobody here uses and keeps the other versions.
    shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(WS, "Cargo.lock"))


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], "full" in sys.argv[2:]))
