"""Runs the rules of one property against /repo's current source.

usage: run.py ID quick|thorough
exit 0: every obligation established; exit 1: a VIOLATION line; exit 2: error.
"""
import hashlib
import importlib
import json
import os
import subprocess
import shutil
import sys
import tempfile
import signal
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("ECS_REPO", "/repo")
sys.path.insert(0, HERE)
EVID = os.environ.get("ECS_EVIDENCE", os.path.join(VERIF, "evidence"))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()


def build_driver(scratch):
    exe = os.path.join(VERIF, "driver", "target", "release", "ecs-facts")
    src = os.path.join(VERIF, "driver")
    newest = max(os.path.getmtime(os.path.join(r, f)) for r, _, fs in os.walk(src)
                 if "target" not in r for f in fs)
    if not os.path.exists(exe) or os.path.getmtime(exe) < newest:
        r = sh(["cargo", "+nightly", "build", "--release", "--offline"], cwd=src)
        if r.returncode or not os.path.exists(exe):
            print(r.stdout[-3000:])
            raise SystemExit(2)
    return exe


def extract(scratch):
    """type-checks /repo with the fact extractor in place of rustc: MIR, types, impls"""
    exe = build_driver(scratch)
    shim = build_shims(scratch)
    out = os.path.join(scratch, "facts.json")
    env = dict(os.environ)
    env.update({
        "LD_LIBRARY_PATH": sysroot() + "/lib", "ECS_FACTS_OUT": out, "ECS_SHIMS": shim,
        "ECS_FACTS_CRATE": "division_ecs", "RUSTC_WORKSPACE_WRAPPER": exe,
        "RUSTFLAGS": "-Zmir-opt-level=0 -Zalways-encode-mir -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums",
    })
    r = sh(["cargo", "+nightly", "check", "--lib", "--offline", "--target-dir", os.path.join(scratch, "t")],
           cwd=REPO, env=env)
    if r.returncode or not os.path.exists(out):
        print(r.stdout[-4000:])
        print("the crate does not build: nothing was decided")
        raise SystemExit(2)
    return out


def extract_file(scratch, path, crate):
    """facts of a single source file (positive controls)"""
    exe = build_driver(scratch)
    out = os.path.join(scratch, crate + ".json")
    env = dict(os.environ)
    env.update({"LD_LIBRARY_PATH": sysroot() + "/lib", "ECS_FACTS_OUT": out, "ECS_FACTS_CRATE": crate,
                "ECS_SHIMS": os.path.join(scratch, "libecs_shims.rlib")})
    r = sh([exe, "rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", crate, path, "--emit", "metadata",
            "-Zmir-opt-level=0", "-Zalways-encode-mir", "--out-dir", scratch], env=env)
    if not os.path.exists(out):
        print(r.stdout[-3000:])
        raise SystemExit(2)
    return json.load(open(out))


def build_shims(scratch):
    shim = os.path.join(scratch, "libecs_shims.rlib")
    if os.path.exists(shim):
        return shim
    r = sh(["rustc", "+nightly", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "ecs_shims",
            "-Zalways-encode-mir", "-Zmir-opt-level=0", os.path.join(VERIF, "shims", "lib.rs"), "-o", shim])
    if r.returncode:
        print(r.stdout[-3000:])
        raise SystemExit(2)
    return shim


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=" + pid + " "):
                rest = l.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out[key.strip()] = text.strip()
    return out


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    import spec
    from spec import Spec, Missing
    from engine import Prog, Limit
    mod = importlib.import_module(pid.lower())
    scratch = tempfile.mkdtemp(prefix="ecs-" + pid + "-")
    try:
        facts = json.load(open(os.environ["ECS_FACTS"])) if os.environ.get("ECS_FACTS") else json.load(open(extract(scratch)))
        p = Prog(facts)
        sp = Spec(pid, p, tier)
        sp.scratch, sp.repo = scratch, REPO
        sp.control = lambda f, c: (build_shims(scratch), Prog(extract_file(scratch, os.path.join(VERIF, "controls", f), c)))[1]
        spec.DEADLINE += 60
        spec.arm()
        spec.DEADLINE -= 60
        sp.guard(mod.run, sp)
        signal.alarm(0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # floors: the instance counts confirmed by hand
    for k, n in getattr(mod, "FLOORS", {}).items():
        have = {"obligations": sp.obl, "paths": sp.npaths, "entries": len(sp.entries),
                "functions": len(sp.inlined)}.get(k)
        if have is None:
            have = sp.obl_by.get(k, 0)
        if have < n:
            sp.cur = None
            sp.violate("floor", f"only {have} instances of {k}, at least {n} are there in this code base")
    known = known_findings(pid)
    new, old, seen = [], {}, set()
    for k, text in sp.viol:
        if k in known:
            old.setdefault(k, text)
        elif k not in seen:
            seen.add(k)
            new.append((k, text))
    names = sorted({p.units[u]["n"] for u in sp.inlined})
    wall = time.time() - t0
    report = os.path.join(EVID, pid + ".report.txt")
    with open(report, "w") as fh:
        for k, text in new:
            fh.write(f"VIOLATION {pid} key={k}\n{text}\n\n")
        for k, text in old.items():
            fh.write(f"known finding {pid} key={k}\n{text}\n\n")
        fh.write(f"{sp.obl} obligations over {sp.npaths} paths\n")
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": (getattr(mod, "EXPLANATION", "") or mod.__doc__ or "").strip(),
            "entries": {k: v["obligations"] for k, v in sorted(sp.entries.items())},
            "obligations": sp.obl, "obligations_by_rule": dict(sorted(sp.obl_by.items())),
            "discharged": sp.obl - sum(1 for k, _ in sp.viol), "paths": sp.npaths,
            "functions_analysed": len(names), "functions": names[:200],
            "call_sites": len(sp.sites), "unmodelled_callees": sorted(str(x) for x in sp.unmodelled),
            "known_findings": sorted(old), "samples": sp.samples[:20], "notes": sp.notes,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(new),
    }
    tmp = os.path.join(EVID, pid + ".json.tmp")
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(EVID, pid + ".json"))
    for k, text in known.items():
        if k in old:
            print(f"KNOWN-FINDING: property={pid} {k} {text}")
    if new:
        for k, text in new[:8]:
            print(text[:3000])
            print()
        print(f"{len(new)} violated rule instances")
        print(f"VIOLATION property={pid} replay={report}")
        return 1
    print(f"{pid}: {sp.obl} obligations established over {sp.npaths} paths of {len(sp.entries)} entries, {len(names)} functions, {wall:.1f} s")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
