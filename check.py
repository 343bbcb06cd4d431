#!/usr/bin/env python3
"""Decides one property against /repo's current working tree.

  check.py ID            explore the property's bounded space (tier from $VERIF_TIER)
  check.py replay FILE   re-execute one reported violation with a trace
  check.py setup         build every checker

Exit: 0 held on everything explored; 1 violation (a VIOLATION line was printed); 2 the check itself
failed.
"""
import glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from claims import CLAIMS  # noqa: E402

REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
MC = os.path.join(VERIF, "mc")
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")


def say(*a):
    print(*a, flush=True)


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "crates")):
        dirs[:] = sorted(d for d in dirs if d != "target")
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            try:
                with open(p, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
    return h.hexdigest()


def forget_stale(profile, key):
    """cargo decides by modification times; decide by content instead: when /repo differs from what
    was last built here, drop the fingerprints of its crates."""
    d = os.path.join(TARGET, profile)
    stamp = os.path.join(d, f".repo-{key}")
    now = repo_hash()
    old = None
    if os.path.exists(stamp):
        with open(stamp) as fh:
            old = fh.read()
    if old != now and os.path.isdir(d):
        names = {os.path.basename(x) for x in glob.glob(os.path.join(REPO, "crates", "*"))}
        for fp in glob.glob(os.path.join(d, ".fingerprint", "*-*")):
            if os.path.basename(fp).rsplit("-", 1)[0] in names:
                shutil.rmtree(fp, ignore_errors=True)
    return stamp, now


def cargo(pkg, profile, features="", env=None, **kw):
    cmd = ["cargo", "build", "--offline", "-q", "-p", pkg, "--profile", profile, "--target-dir", TARGET]
    if features:
        cmd += ["--features", features]
    e = dict(os.environ, **(env or {}))
    e.pop("RUSTFLAGS", None)
    return subprocess.run(cmd, cwd=MC, env=e, **kw)


def build(pkg, profile):
    stamp, now = forget_stale(profile, pkg)
    r = cargo(pkg, profile)
    if r.returncode != 0:
        say(f"check.py: building {pkg} ({profile}) failed")
        sys.exit(2)
    with open(stamp, "w") as fh:
        fh.write(now)
    return os.path.join(TARGET, profile, pkg)


class GeneratedCode(Exception):
    """The generator refused a grammar, or what it generated does not compile."""


def build_generated(claim, profile, tier):
    """Generates code from every grammar with the real generator and compiles the checker with it."""
    make = build("genmake", profile)
    d = os.path.join(TARGET, "gen", f"{profile}-{tier}")
    r = subprocess.run([make, d, tier], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    refused = os.path.join(d, "refused")
    if r.returncode == 1 and os.path.exists(refused):
        with open(refused) as fh:
            raise GeneratedCode(fh.read())
    if r.returncode != 0:
        say(f"check.py: generating failed ({r.returncode})")
        sys.exit(2)
    stamp, now = forget_stale(profile, "genrun")
    r = cargo("genrun", profile, claim["gen"], {"MCX_GEN_DIR": d}, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        # an error located in generated code, or in the code that uses it as its grammar promises
        at = [i for i, l in enumerate(r.stderr.splitlines()) if l.strip().startswith("--> " + d)]
        if at:
            ls = r.stderr.splitlines()
            raise GeneratedCode("the generated code does not compile or is not what its grammar "
                                "says:\n" + "\n".join(ls[max(0, at[0] - 1):at[0] + 14]))
        sys.stderr.write(r.stderr)
        say(f"check.py: building genrun ({profile}) failed")
        sys.exit(2)
    with open(stamp, "w") as fh:
        fh.write(now)
    return os.path.join(TARGET, profile, "genrun")


def executable(claim, pkg, profile, tier):
    if "gen" in claim:
        return build_generated(claim, profile, tier)
    return build(pkg, profile)


def replay(path):
    with open(path) as fh:
        r = json.load(fh)
    claim = CLAIMS[r["property"]]
    try:
        exe = executable(claim, r["binary"], r["profile"], r["tier"])
    except GeneratedCode as e:
        print(e)
        say(f"VIOLATION property={r['property']} replay={path}")
        return 1
    if r.get("stage"):
        say("the code is generated and compiles")
        return 0
    os.environ["VERIF_TIER"] = r["tier"]
    p = subprocess.run([exe, "one", r["property"], r["space"], ",".join(map(str, r["choices"]))],
                       env=run_env(claim))
    if p.returncode not in (0, 2):
        say(f"VIOLATION property={r['property']} replay={path}")
        return 1
    return p.returncode


def run_env(claim):
    e = dict(os.environ)
    e["MCX_REPLAYS"] = REPLAYS
    e["RUST_BACKTRACE"] = "0"
    return e


def explore(pid):
    claim = CLAIMS[pid]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    for f in glob.glob(os.path.join(REPLAYS, pid + "-*.json")):
        os.remove(f)
    start = time.time()
    runs = []
    code = 0
    for pkg, profile in claim["runs"]:
        try:
            exe = executable(claim, pkg, profile, tier)
        except GeneratedCode as e:
            path = os.path.join(REPLAYS, f"{pid}-{profile}-generate.json")
            with open(path, "w") as fh:
                json.dump({"property": pid, "stage": "generate", "binary": pkg, "profile": profile,
                           "tier": tier, "error": str(e)}, fh, indent=1)
            print(e)
            say(f"VIOLATION property={pid} replay={path}")
            code = 1
            break
        out = os.path.join(TARGET, f"report-{pid}-{pkg}-{profile}.json")
        if os.path.exists(out):
            os.remove(out)
        env = run_env(claim)
        env["MCX_OUT"] = out
        if tier == "thorough":
            env.setdefault("MCX_WALL", str(int(claim.get("thorough_wall", 1800) / len(claim["runs"]))))
        p = subprocess.run([exe, "explore", pid], env=env)
        rep = {}
        if os.path.exists(out):
            with open(out) as fh:
                rep = json.load(fh)
            os.remove(out)
        rep["package"], rep["profile"] = pkg, profile
        runs.append(rep)
        if p.returncode == 1:
            code = 1
            break
        if p.returncode != 0 or "spaces" not in rep:
            say(f"check.py: the checker ended with {p.returncode}")
            code = 2
            break
    # coverage, all measured on this run
    best = {}
    execs = checks = 0
    exhaustive = code == 0
    outcomes = {}
    samples = []
    notes = []
    detail = []
    for rep in runs:
        for s in rep.get("spaces", []):
            k = (rep["package"].split("-")[0], s["name"])
            b = best.setdefault(k, [0, 0])
            b[0] = max(b[0], s["states"])
            b[1] = max(b[1], s["transitions"])
            execs += s["executions"]
            checks += s["oracle_checks"]
            if s["capped"] or s["states_capped"]:
                exhaustive = exhaustive and not s["capped"]
            for o, n in s["outcomes"].items():
                outcomes[o] = outcomes.get(o, 0) + n
            for x in s["samples"]:
                if len(samples) < 12:
                    samples.append({"space": s["name"], "build": rep["profile"], **x})
            detail.append({
                "package": rep["package"], "build": rep["profile"], "space": s["name"],
                "bound": s["bound"], "executions": s["executions"], "transitions": s["transitions"],
                "states": s["states"], "state_count_is_a_lower_bound": s["states_capped"],
                "max_depth": s["max_depth"], "complete": not s["capped"], "wall_s": s["wall_s"],
            })
        notes += [n for n in rep.get("notes", []) if n not in notes]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": claim["level"],
        "coverage": {
            "states": sum(b[0] for b in best.values()),
            "transitions": sum(b[1] for b in best.values()),
            "traces_validated_against_impl": execs,
            "oracle_checks": checks,
            "exhaustive": exhaustive,
            "outcomes": outcomes,
            "spaces": detail,
            "samples": samples or ["none: the run stopped at a violation"],
            "notes": notes,
            "rule": "states: distinct reference-model states; transitions: distinct edges of the choice "
                    "trees; traces_validated_against_impl: complete executions of the real code compared "
                    "with the reference, over all build modes",
        },
        "assumptions": claim["assumptions"],
        "wall_s": round(time.time() - start, 2),
        "violations": 1 if code == 1 else 0,
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    if code == 0:
        say(f"{pid}: held on {execs} executions ({tier})")
    return code


def setup():
    done = set()
    os.makedirs(TARGET, exist_ok=True)
    for c in CLAIMS.values():
        for run in c["runs"]:
            if (run, c.get("gen")) not in done:
                done.add((run, c.get("gen")))
                if "gen" in c:
                    try:
                        build_generated(c, run[1], "quick")
                    except GeneratedCode as e:
                        print(e)
                else:
                    build(*run)
    return 0


def main():
    a = sys.argv[1:]
    if a == ["setup"]:
        return setup()
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    if len(a) == 1 and a[0] in CLAIMS:
        return explore(a[0])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
