"""Derive, from /repo as it is now, a cargo package of the modules of rtest that do not need the empty `ruff` submodule.

Same derivation as /opt/vp/harness/prepare.py (rtest itself cannot be built: ruff/ is an empty submodule), written to
OUT so that nothing under /opt/vp is touched.  Also copies the driver crate's manifest next to it.
"""

import os
import re
import shutil
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")

LEFT_OUT = {
    "collection_integration",
    "collection::nodes",
    "python_discovery::cases",
    "python_discovery::constant_resolver",
    "python_discovery::discovery",
    "python_discovery::module_resolver",
    "python_discovery::semantic_analyzer",
    "python_discovery::visitor",
}


def read(path):
    with open(path, encoding="utf-8") as f:
        return f.read()


def write(path, text):
    if not os.path.exists(path) or read(path) != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)


def module(path, directory, prefix=""):
    text = read(path)

    def use(m):
        return "" if prefix + m[1] in LEFT_OUT else m[0]

    def mod(m):
        vis, name = m[1] or "", m[2]
        if prefix + name in LEFT_OUT:
            return ""
        inner = f"{directory}/{name}"
        if os.path.exists(f"{inner}/mod.rs"):
            if any(x.startswith(f"{prefix}{name}::") for x in LEFT_OUT):
                body = module(f"{inner}/mod.rs", inner, f"{prefix}{name}::")
                return f"{vis}mod {name} {{\n{body}\n}}"
            return f'#[path = "{inner}/mod.rs"]\n{vis}mod {name};'
        return f'#[path = "{inner}.rs"]\n{vis}mod {name};'

    text = re.sub(r"^pub use (\w+)\b[^;]*;", use, text, flags=re.M)
    return re.sub(r"^(pub(?:\([^)]*\))? )?mod (\w+);", mod, text, flags=re.M)


def copy_crate(src, dst):
    for root, _, names in os.walk(src):
        for name in names:
            path = os.path.join(root, name)
            write(f"{dst}/" + os.path.relpath(path, src), read(path))


def lock_from_repo(out):
    lock = read(f"{REPO}/Cargo.lock")
    seed = f"{out}/Cargo.lock.seed"
    if not (os.path.exists(seed) and os.path.exists(f"{out}/Cargo.lock") and read(seed) == lock):
        write(f"{out}/Cargo.lock", lock)
        write(seed, lock)


def main(out):
    here = os.path.dirname(os.path.abspath(__file__))
    manifest = re.sub(r"^ruff_\w+ = .*\n", "", read(f"{REPO}/Cargo.toml"), flags=re.M)
    manifest = manifest.replace("[lib]\n", '[lib]\npath = "lib.rs"\n', 1)
    manifest = re.sub(r"^\[dev-dependencies\]\n(?:[^\[\n].*\n)*", "", manifest, flags=re.M)
    write(f"{out}/rtest/Cargo.toml", manifest)
    write(f"{out}/rtest/lib.rs", module(f"{REPO}/src/lib.rs", f"{REPO}/src"))
    write(f"{out}/Cargo.toml", '[workspace]\nmembers = ["rtest", "vh"]\nresolver = "2"\n')
    copy_crate(f"{here}/vh", f"{out}/vh")
    lock_from_repo(out)


def full(out):
    """All of rtest, Python extension included, over the stand-ins for the ruff crates in harness/ruff, and its driver."""
    here = os.path.dirname(os.path.abspath(__file__))
    manifest = re.sub(r'(path = ")ruff/crates/ruff_(?:python_)?(\w+)(")', rf"\1{here}/ruff/\2\3", read(f"{REPO}/Cargo.toml"))
    manifest = manifest.replace("[lib]\n", f'[lib]\npath = "{REPO}/src/lib.rs"\n', 1)
    write(f"{out}/rtest/Cargo.toml", manifest)
    write(f"{out}/Cargo.toml", '[workspace]\nmembers = ["rtest", "vc"]\nresolver = "2"\n')
    copy_crate(f"{here}/vc", f"{out}/vc")
    lock_from_repo(out)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
