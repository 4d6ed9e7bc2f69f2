"""C24: readable component memory has been given a value.

The component found for an arbitrary live handle after every operation is followed
backwards through all writes and copies: it ends at the same entity's component before
the operation (which had a value then) or at a value the caller passed. What a new
entity is found to have must end at a value the caller passed.
"""
from spec import *
from store import *
from registry import *
from c06 import possible
import c03
import c23
import common
import tuples as tuples_
from c03 import Walk, Lost, read

ASSUMPTIONS = ["debug assertions are on", "tables of pages and archetypes are consistent (C06)",
               "slots of a page do not overlap (C04)", "distinct pages own distinct memory (C18)"]
FLOORS = {"entries": 6, "paths": 300, "C24-born": 2, "C03-others": 100, "C23-value": 100}


def born(sp, x, ret, m, R, eng, ent, name):
    if not possible(sp, R, x):
        return
    sp.entries[sp.cur]["paths"] += 1
    W = Walk(sp, eng, R)
    sp.axioms = [a for a in sp.axioms if not getattr(a, "walk", 0)] + [W.axioms()]
    sp.axioms[-1].__dict__["walk"] = 1

    def go(st):
        for y, s in read(sp, eng, m, st, ret):
            def chk(z):
                if s is None:
                    sp.require(z, TRUE, "C24-born", "")
                    return
                try:
                    c, _ = W.cell(z, s)
                    c = W.back(z, c)
                except Lost as e:
                    sp.require(z, FALSE, "C24-born", f"a component of a new entity: {e}")
                    return
                sp.require(z, B(isinstance(c, tuple)), "C24-born", "a component of a new entity is found though nothing was written to it")
            sp.cases(eng, y, chk)
    sp.cases(eng, x.copy(), go)


def run(sp):
    sp.guard(common.check, sp, "C23-common")
    sp.guard(tuples_.check, sp, "C23-tuple", tuples_.SLOTS)
    for name in c03.OPS:
        sp.guard(c03.operation, sp, name, c03.others)
        if name in c23.OPS:
            sp.guard(c03.operation, sp, name, c23.effect)
        elif name.startswith("create"):
            sp.guard(c03.operation, sp, name, born)
    c03.rest(sp)
