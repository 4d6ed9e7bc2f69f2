"""C23: adding and removing components.

add_components and remove_components on an arbitrary live entity, compared with set
operations member by member (an arbitrary component type C), and with the given and
the old values: C's value is followed backwards from the slot it is found in
afterwards, through every write and copy.
"""
from spec import *
from store import *
from registry import *
from c06 import given, possible, component_set
import c03
import c06
import c21
import common
import tuples as tuples_
from c03 import Walk, Cell, Lost, at, read

ASSUMPTIONS = ["debug assertions are on", "tables of pages and archetypes are consistent (C06)",
               "slots of a page do not overlap (C04)", "distinct pages own distinct memory (C18)"]
FLOORS = {"entries": 30, "paths": 300, "C23-set": 100, "C23-value": 100, "C23-tuple": 200, "C23-common": 4, "C21-tuple": 100}
TT = mk("stup", "T")
OPS = ("add_components", "remove_components")


def effect(sp, x, ret, m, R, eng, ent, name):
    if not possible(sp, R, x):
        return
    sp.entries[sp.cur]["paths"] += 1
    e, ei, ev = ent
    W = Walk(sp, eng, R)
    sp.axioms = [a for a in sp.axioms if not getattr(a, "walk", 0)] + [W.axioms()]
    sp.axioms[-1].__dict__["walk"] = 1

    def where(st):
        """(C is in the set, C is named, the slot C was in)"""
        st.assume(m.alive(ei), eq(m.ver(ei), ev))
        has = st.decide(R.HB(ei))
        sp.saturate(st)
        old = st.norm(given(m, R, ei)) if has else None
        was = has and st.decide(isin(old, CT))
        if name == "remove_components" and not was:
            return has, False, None, None
        named = st.decide(isin(TT, CT))
        slot = None
        if was:
            slot = Cell(st.norm(getf(mk("at", R.P, st.norm(R.EP(ei))), R.fdata)), st.norm(R.EI(ei)), old)
        return has, was, named, slot

    def set_(st):
        has, was, named, _ = where(st)
        sp.saturate(st)
        want = (was or named) if name == "add_components" else (was and not named)
        for y, k in component_set(sp, eng, m, st, e):
            def chk(z):
                if name == "add_components" and k is None:
                    sp.require(z, FALSE, "C23-set", "an entity given components is reported to have none")
                elif k is None:
                    sp.require(z, B(not want), "C23-set", "a component that was not named is gone")
                else:
                    c = isin(z.norm(k), CT)
                    sp.require(z, c if want else neg(c), "C23-set",
                               "a component is missing afterwards" if want else "a component is there that should not be")
                    if name == "remove_components":
                        sp.require(z, neg(mk("pred", "isempty", z.norm(k))) if has else FALSE, "C23-set",
                                   "an entity without components is reported to have an empty set")
            sp.cases(eng, y, chk)

    def value(st):
        has, was, named, slot = where(st)
        sp.saturate(st)
        add_ = name == "add_components"
        want = (was or named) if add_ else (was and not named)
        for y, s in read(sp, eng, m, st, e):
            def chk(z):
                if s is None or not want:
                    sp.require(z, B((s is not None) == want), "C23-value",
                               "a component is not found afterwards" if want else "a component is found that should not be there")
                    return
                if not (add_ and named):
                    return at(sp, W, z, s, slot, "C23-value", "a component that was not named")
                try:
                    c, _ = W.cell(z, s)
                    c = W.back(z, c)
                except Lost as er:
                    sp.require(z, FALSE, "C23-value", f"an added component: {er}")
                    return
                sp.require(z, B(isinstance(c, tuple) and c[1] == "T" and z.norm(c[2]) is mk("init", "comps")), "C23-value",
                           "an added component does not have the given value")
            sp.cases(eng, y, chk)

    def dead(st):
        st.assume(neg(band(m.alive(ei), eq(m.ver(ei), ev))))
        sp.saturate(st)
        v = st.norm(st.mem.get(m.root, m.s))
        sp.require(st, B(v is st.norm(m.s)), "C23-dead", "the store changes although the entity is dead")
        for t in c03.effects(st):
            if t[0] != "free" and any(isinstance(q, T) and c06.frames.rooted(st.norm(q), m.s) for q in t[1:2]):
                sp.require(st, FALSE, "C23-dead", "memory of the store changes although the entity is dead")
    for f in (set_, value, dead):
        sp.cases(eng, x.copy(), f)


def run(sp):
    sp.guard(common.check, sp, "C23-common")
    sp.guard(tuples_.check, sp, "C23-tuple", tuples_.SLOTS)
    sp.guard(c21.run, sp)
    for name in OPS:
        sp.guard(c03.operation, sp, name, effect)
