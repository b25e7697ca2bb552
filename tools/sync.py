#!/usr/bin/env python3
"""Mirrors /repo's sources into /verif/build so that they can be built here.

build/ws      the whole crate; openworkers-core is the stand-in harness/core
build/scoped  the modules that need neither openworkers-core nor other modules,
              with std::sync replaced by ow_sync (same semantics, plus scheduling
              points); a change elsewhere in the crate cannot stop this one from building

The sources are taken as they are in /repo's working tree on each run. Only files
whose content changes are written, so that cargo rebuilds incrementally."""
import os
import re
import sys

REPO = os.environ.get("OW_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")

SCOPE = ["async_waiter", "gc", "security", "v8_helpers"]
RUNTIME = ["crypto", "stream_manager", "streams", "text_encoding"]


def read(rel):
    with open(os.path.join(REPO, rel), encoding="utf-8") as f:
        return f.read()


def tree(rel, ext=(".rs", ".toml", ".js")):
    for base, _, names in os.walk(os.path.join(REPO, rel)):
        for name in names:
            if name.endswith(ext):
                yield os.path.relpath(os.path.join(base, name), REPO)


def write_tree(out, files):
    for base, dirs, names in os.walk(out):
        dirs[:] = [d for d in dirs if d != "target"]
        for name in names:
            path = os.path.join(base, name)
            if os.path.relpath(path, out) not in files:
                os.remove(path)
    for rel, text in files.items():
        path = os.path.join(out, rel)
        data = text if isinstance(text, bytes) else text.encode()
        try:
            with open(path, "rb") as f:
                if f.read() == data:
                    continue
        except FileNotFoundError:
            os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)


def full():
    files = {}
    for rel in list(tree("src")) + list(tree("gc-derive")):
        files[rel] = read(rel)
    for base, _, names in os.walk(os.path.join(REPO, "src")):
        for name in names:  # data files the sources may include
            rel = os.path.relpath(os.path.join(base, name), REPO)
            if rel not in files:
                with open(os.path.join(REPO, rel), "rb") as f:
                    files[rel] = f.read()
    files.setdefault("src/icudtl.dat", "")
    # named by build.rs, absent from the repository: keeps cargo from rebuilding each time
    files.setdefault("src/runtime/bindings.rs.stamp", "")
    cargo = read("Cargo.toml")
    cargo = re.sub(
        r"^openworkers-core *=.*$",
        'openworkers-core = { path = "../../harness/core" }',
        cargo,
        flags=re.M,
    )
    cargo = re.sub(r"^\[workspace\]\n(?:.+\n)*", "", cargo, flags=re.M)
    # benches, examples and tests are not mirrored
    cargo = re.sub(r"^\[\[(bench|example|test)\]\]\n(?:.+\n)*", "", cargo, flags=re.M)
    files["Cargo.toml"] = cargo
    files["build.rs"] = (
        "fn main() {\n"
        '    println!("cargo:rerun-if-changed=build.rs");\n'
        '    println!("cargo:rustc-env=RUNTIME_SNAPSHOT_PATH=/nonexistent/openworkers-snapshot.bin");\n'
        "}\n"
    )
    return files


def scoped():
    files = {}
    for rel in tree("src"):
        parts = rel[4:].removesuffix(".rs").split("/")
        if parts[0] in SCOPE or (parts[0] == "runtime" and parts[1] in RUNTIME):
            text = read(rel)
            text = text.replace("std::sync::", "ow_sync::")
            if rel == "src/security/cpu_enforcer.rs" or rel == "src/security/timeout_guard.rs":
                text = read(rel)  # real threads and timers: checked in real time
            text = re.sub(r"#\[cfg\(test\)\]", "#[cfg(any())]", text)
            files[rel] = text
    for rel in tree("gc-derive"):
        pass
    lib = read("src/lib.rs")
    uses = []
    for m in re.finditer(
        r"^pub use (?:crate::)?(\w+)(::[^;]*);", lib, re.M
    ):
        if m[1] in SCOPE or m[1] == "gc_derive":
            uses.append(m[0])
    files["src/lib.rs"] = (
        "#![allow(unexpected_cfgs, dead_code)]\n"
        + "".join(f"pub mod {m};\n" for m in SCOPE)
        + "pub mod runtime { " + " ".join(f"pub mod {m};" for m in RUNTIME) + " }\n"
        + "\n".join(uses) + "\n"
    )
    cargo = read("Cargo.toml")
    cargo = re.sub(r"^\[workspace\]\n(?:.+\n)*", "", cargo, flags=re.M)
    cargo = re.sub(r"^openworkers-core *=.*\n", "", cargo, flags=re.M)
    cargo = re.sub(r"^\[\[\w+\]\]\n(?:.+\n)*", "", cargo, flags=re.M)
    cargo = cargo.replace('name = "openworkers-runtime-v8"', 'name = "ow-scoped"', 1)
    cargo = cargo.replace('path = "gc-derive"', 'path = "../ws/gc-derive"')
    cargo = cargo.replace(
        "[dependencies]\n",
        '[dependencies]\now_sync = { path = "../../harness/ow_sync" }\n', 1)
    # clocks a check can move
    cargo = re.sub(r"^libc *=.*$", 'libc = { package = "ow_libc", path = "../../harness/ow_libc" }', cargo, flags=re.M)
    files["Cargo.toml"] = cargo
    return files


def main():
    write_tree(os.path.join(BUILD, "ws"), full())
    write_tree(os.path.join(BUILD, "scoped"), scoped())


if __name__ == "__main__":
    main()
