"""Compile-fail witnesses: programs the type checker must reject, each with a
twin, differing by the offending lines only, that it must accept. Nothing is run:
the verdict is rustc's, on crates that depend on /repo by path.

A case is (id, code): lines marked `//!` are the offending ones, left out of the
twin; `//+` lines are in the twin only. Expected error codes decide that the
program is rejected for the reason given.
"""
import json
import os
import re
import shutil
import subprocess

PRE = """
#![allow(dead_code, unused_variables, unused_mut, unused_imports, unused_assignments, path_statements, noop_method_call)]
use division_ecs::*;
use division_ecs::query;
#[derive(Component, Clone, Copy)] pub struct A { pub x: u32 }
#[derive(Component, Clone, Copy)] pub struct B { pub y: u64 }
#[derive(Tag)] pub struct G {}
pub fn need_send<T: Send>() {}
pub fn need_sync<T: Sync>() {}
pub fn need_clone<T: Clone>(_: &T) {}
pub fn eat<T>(_: T) {}
pub fn seen<T>(_: &T) {}
"""


class Build:
    def __init__(self, sp, name):
        self.sp, self.dir = sp, os.path.join(sp.scratch, "w-" + name)
        os.makedirs(os.path.join(self.dir, "src"))
        with open(os.path.join(self.dir, "Cargo.toml"), "w") as f:
            f.write(f'[package]\nname = "witness"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
                    f'[dependencies]\ndivision_ecs = {{ path = "{sp.repo}" }}\n')
        lock = os.path.join(sp.repo, "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(self.dir, "Cargo.lock"))

    def check(self, cases, bad):
        lines = PRE.split("\n")
        at = {}
        for cid, code in cases:
            start = len(lines)
            lines.append(f"mod c_{cid} {{ use super::*;")
            for l in code.strip("\n").split("\n"):
                off, only = "//!" in l, "//+" in l
                if bad and only or not bad and off:
                    lines.append("")
                else:
                    lines.append(l.replace("//!", "").replace("//+", ""))
            lines.append("}")
            at[cid] = (start + 1, len(lines))
        with open(os.path.join(self.dir, "src", "lib.rs"), "w") as f:
            f.write("\n".join(lines) + "\n")
        env = dict(os.environ)
        env.pop("RUSTFLAGS", None)
        env.pop("RUSTC_WORKSPACE_WRAPPER", None)
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--message-format=json",
                            "--target-dir", os.path.join(self.sp.scratch, "wt")],
                           cwd=self.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        errs = {c: [] for c in at}
        other = []
        n = 0
        for l in r.stdout.split("\n"):
            if not l.startswith("{"):
                continue
            m = json.loads(l)
            if m.get("reason") != "compiler-message":
                continue
            m2 = m["message"]
            if m2["level"] != "error":
                continue
            code = (m2.get("code") or {}).get("code")
            hit = False
            for s in m2["spans"]:
                if not s["is_primary"] or not s["file_name"].endswith("lib.rs"):
                    continue
                for c, (a, b) in at.items():
                    if a <= s["line_start"] <= b and m["target"]["name"] == "witness":
                        errs[c].append((code, m2["message"]))
                        hit = True
            if not hit and not m2["message"].startswith("aborting"):
                other.append(m2["message"])
            n += 1
        if r.returncode and not n:
            other.append(r.stderr[-1500:])
        return errs, other


def decide(sp, name, cases):
    """cases: (id, codes, rule, what, code). Violation when the program is accepted."""
    prog = [(c[0], c[4]) for c in cases]
    b = Build(sp, name)
    errs, other = b.check(prog, False)
    twin_bad = {c: e for c, e in errs.items() if e}
    for o in other:
        sp.cur = None
        sp.violate("witness-build", f"the compiling twins could not be checked: {o}")
    if other:
        return
    # trait/type errors and borrow errors come from different phases: when the
    # first kind is present the second may not be reported, so they go apart
    res = {}
    bad_phase = [[c for c in prog if ph(cases, c[0]) == p] for p in ("type", "borrow", "parse")]
    for grp in bad_phase:
        if not grp:
            continue
        if ph(cases, grp[0][0]) == "parse":
            for c in grp:
                e, other = b.check([c], True)
                res.update(e)
                if other and not e[c[0]]:
                    res[c[0]] = [(None, o) for o in other]
            continue
        e, other = b.check(grp, True)
        res.update(e)
        for o in other:
            sp.cur = None
            sp.violate("witness-build", f"witness crate: {o}")
    sp.npaths += 2 * len(cases)
    for cid, codes, rule, what, code, *key in cases:
        sp.entry(key[0] if key else cid)
        sp.obl += 1
        sp.obl_by[rule] = sp.obl_by.get(rule, 0) + 1
        sp.entries[sp.cur]["obligations"] += 1
        if cid in twin_bad:
            sp.violate("twin", f"the compiling twin of {cid} is rejected: {twin_bad[cid][:2]}")
            continue
        got = [c for c, _ in res.get(cid, [])]
        if not got:
            sp.violate(rule, f"{what}: this program is accepted\n{code}")
        elif codes and not any(c in codes for c in got):
            sp.violate(rule + "-code", f"{what}: rejected, but for another reason {res[cid][:2]}\n{code}")
        else:
            if len(sp.samples) < 12:
                sp.samples.append({"case": cid, "rejected_with": got[0], "because": res[cid][0][1]})


TYPE = {"E0277", "E0308", "E0599", "E0369", "E0204", "E0184", "E0261", "E0726", "E0283", "E0271", "E0616", "E0451", "E0603", "E0624", "E0423", "E0133"}


def ph(cases, cid):
    for c in cases:
        if c[0] == cid:
            if not c[1]:
                return "parse"
            return "type" if c[1] & TYPE else "borrow"
