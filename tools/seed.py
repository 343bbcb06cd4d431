#!/usr/bin/env python3
"""Turn descriptions of planted bugs into /verif/seeded/<id>/, after confirming each one.

usage: seed.py plant BATCH.py [ID...]   write seeded/<id> for each bug that is confirmed
       seed.py check [ID...]            apply each to /repo, run its property's quick check, undo

A batch is a Python file with a list SEEDS of dicts: id, property, edits [(file, old, new)], deps (crates
of /repo the demonstration uses, or other lines for its Cargo.toml), demo (Rust source), needs, breaks.
"""

import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path("/verif")
REPO = pathlib.Path("/repo")

DEMO_SH = """#!/bin/sh
# Run in the repository. Builds demo.rs against it in a scratch directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd) || exit 3
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
sed "s|@REPO@|$repo|g" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$tmp/Cargo.lock"; fi
if [ -f "$here/gen.rs" ]; then cp "$here/gen.rs" "$tmp/gen.rs"; fi
cd "$tmp" || exit 3
SCRATCH="$tmp/scratch" CARGO_TARGET_DIR="$tmp/target" RUST_BACKTRACE=0 cargo run --offline -q
"""


def crate_dirs():
    out = {}
    for t in REPO.glob("crates/*/Cargo.toml"):
        for line in t.read_text().splitlines():
            if line.startswith("name"):
                out[line.split('"')[1]] = t.parent.name
                break
    return out


DIRS = crate_dirs()


def cargo_toml(s):
    deps = []
    for d in s["deps"]:
        if "=" in d:
            deps.append(d)
        else:
            deps.append(f'{d} = {{ path = "@REPO@/crates/{DIRS[d]}" }}')
    return (
        '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n' + s.get("package", "") + '\n[workspace]\n\n[dependencies]\n'
        + "\n".join(deps)
        + "\n"
        + s.get("toml", "")
    )


def run(cmd, cwd, timeout=600, env=None):
    return subprocess.run(
        cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
        env=dict(os.environ, **(env or {})),
    )


def plant(s):
    sid = s["id"]
    work = pathlib.Path(tempfile.mkdtemp(prefix=f"seed-{sid}-"))
    try:
        tree = work / "repo"
        subprocess.run(["cp", "-a", str(REPO), str(tree)], check=True)
        for name, old, new in s["edits"]:
            p = tree / name
            text = p.read_text()
            if text.count(old) != 1:
                return sid, f"{name}: {text.count(old)} occurrences of {old!r}"
            p.write_text(text.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=tree, stdout=subprocess.PIPE, check=True).stdout
        r = run("cargo test --workspace --offline -- --test-threads 4", tree)
        if r.returncode:
            return sid, "tests: " + r.stdout[-1500:]
        r = run("cargo build --workspace --offline && cargo check --workspace --all-features --offline", tree)
        if r.returncode:
            return sid, "build: " + r.stdout[-1500:]
        if "warning: unused" in r.stdout:
            print(sid, "note: warns\n", r.stdout[-600:])
        out = work / "out"
        out.mkdir()
        (out / "demo.rs").write_text(s["demo"])
        if "gen" in s:
            (out / "gen.rs").write_text(s["gen"])
        (out / "Cargo.toml.in").write_text(cargo_toml(s))
        (out / "demo.sh").write_text(DEMO_SH)
        (out / "demo.sh").chmod(0o755)
        bad = run(f"sh {out}/demo.sh", tree)
        if bad.returncode == 0:
            return sid, "demo passes with the bug"
        if not s.get("may_not_compile") and ("error: could not compile" in bad.stdout or "error[E" in bad.stdout):
            return sid, "demo does not compile: " + bad.stdout[-2500:]
        good = run(f"sh {out}/demo.sh", REPO)
        if good.returncode:
            return sid, "demo fails on the unchanged tree: " + good.stdout[-2500:]
        (out / "patch.diff").write_bytes(diff)
        (out / "meta.json").write_text(
            json.dumps(
                {"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1
            )
            + "\n"
        )
        dest = VERIF / "seeded" / sid
        if dest.exists():
            shutil.rmtree(dest)
        shutil.copytree(out, dest)
        return sid, "planted; the demo says: " + bad.stdout.strip()[-300:].replace("\n", " | ")
    finally:
        shutil.rmtree(work)


def check(sid):
    d = VERIF / "seeded" / sid
    pid = json.loads((d / "meta.json").read_text())["property"]
    if run("git status --short", REPO).stdout.strip():
        sys.exit("/repo is not clean")
    run(f"git apply {d}/patch.diff", REPO)
    try:
        manifest = json.loads((VERIF / "MANIFEST.json").read_text())
        cmd = next(c for c in manifest["checks"] if c["property"] == pid)["quick_cmd"]
        r = run(cmd, VERIF, 1200, {"VERIF_TIER": "quick", "VERIF_SEED": "1"})
    finally:
        run("git checkout -- .", REPO)
    lines = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
    return pid, r.returncode, lines, r.stdout[-600:]


def main():
    what, args = sys.argv[1], sys.argv[2:]
    if what == "plant":
        scope = {}
        exec(pathlib.Path(args[0]).read_text(), scope)
        seeds = [s for s in scope["SEEDS"] if not args[1:] or s["id"] in args[1:]]
        with ThreadPoolExecutor(4) as ex:
            for sid, msg in ex.map(plant, seeds):
                print(sid, msg, flush=True)
    elif what == "check":
        for sid in args or sorted(p.name for p in (VERIF / "seeded").iterdir()):
            pid, rc, lines, tail = check(sid)
            ok = rc == 1 and any(f"property={pid} " in x for x in lines)
            print(sid, pid, "caught" if ok else f"MISSED rc={rc}", (lines or [""])[0], flush=True)
            if not ok:
                print(tail)


main()
