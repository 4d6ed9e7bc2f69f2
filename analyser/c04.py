"""C04: component slots stay inside their page and do not overlap.

The columns a layout places are disjoint, in a page, and have room for as many
entities as the layout says (ArchetypeLayout::new, an arbitrary set of types); entity
i's component is at the i-th place of its column (tuple functions of every arity,
moves between slots), and i is less than that number at every access (an arbitrary
path of every operation; the facts about pages it rests on shown preserved).
"""
from spec import *
from store import *
from registry import *
from c06 import start, possible
import c03
import c06
import c21
import layout
import tuples as tuples_
from c03 import Walk, Lost

ASSUMPTIONS = ["debug assertions (overflow checks included) are on", "archetype functions are set operations (C21)",
               "distinct pages own distinct memory (C18)", "handles are used with the store that issued them"]
FLOORS = {"entries": 20, "paths": 100, "C04-layout": 4, "C04-tuple": 200, "C04-slot": 60, "C06-page-capacity": 100, "C21-table": 5}


def accesses(sp, W, st):
    """(layout, entity index) of every access to a page's memory"""
    out = []

    def entry(e, it):
        if e[0] == "tw":
            o = st.norm(e[3])
            if o.op != "offs":
                raise Limit("offsets of unknown origin")
            out.append((o.a[2], e[2]))
        elif e[0] == "cp" and component(W, st, e):
            for base, off in ((e[1], e[2]), (e[3], e[4])):
                out.append(at(W, st, off))
        elif e[0] == "loop":
            rec = e[1]
            kt, it = mk("k", rec.uid, *rec.ks), mk("iter", rec.uid, *rec.ks)
            for v in rec.variants:
                if any(not contains(f, kt) and st.known(f) is False for f in v["facts"]):
                    continue
                for x in v["log"]:
                    entry((x[0],) + tuple(subst(t, {kt: it}) if isinstance(t, T) else t for t in x[1:]), it)
    for e in st.logs():
        entry(e, None)
    return out


def component(W, st, e):
    """a copy to or from a page's memory"""
    for t in (e[1], e[3]):
        t = st.norm(t)
        t = t.a[0] if t.op == "ptr" else t
        if t.op == "fld" and t.a[1] == W.R.fdata:
            return True
    for t in (e[2], e[4]):
        if any(x.op == "mem" and x.a[0].op == "fld" and x.a[0].a[1] == W.foffs for x in atoms_in(st.norm(t))):
            return True
    return False


def at(W, st, off):
    lk, li, ak, ai, i = W.address(st, off)
    o = [x for x in atoms_in(st.norm(off)) if x.op == "mem" and x.a[0].op == "fld" and x.a[0].a[1] == W.foffs]
    if ak is not None and not W.same(st, lk, ak):
        raise Lost("an address is made of the offset in one set and the size in another")
    if ak is not None and ai is not li and st.known(eq(ai, li)) is not True:
        raise Lost("an address is made of the offset of one component and the size of another")
    return o[0].a[0].a[0], i


def slots(sp, x, ret, m, R, eng, ent, name):
    if not possible(sp, R, x):
        return
    sp.entries[sp.cur]["paths"] += 1
    W = Walk(sp, eng, R)

    def chk(st):
        try:
            for l, i in accesses(sp, W, st):
                l = st.norm(l)
                cap = st.norm(eng.getf(l, R.flcap) if hasattr(eng, "getf") else getf(l, R.flcap))
                sp.require(st, band(ge0(i), lt(i, cap)), "C04-slot", "a slot beyond those the layout has room for is used")
        except Lost as e:
            sp.require(st, FALSE, "C04-slot", str(e))
    sp.cases(eng, x.copy(), chk)
    c06.invariants(sp, eng, m, R, x)


def lookups(sp, rule="C04-slot", room=True):
    for mut in (False, True):
        m, R = start(sp)
        sp.entry("Store::get_components_refs" + ("_mut" if mut else ""))
        eng = sp.engine(otypes=REST)
        c03.prepare(sp, eng)
        R.eng = eng
        W = Walk(sp, eng, R)
        sp.axioms = sp.axioms + [c03.members(R), W.axioms()]
        h, hi, hv = m.entity("h")
        for y, s in c03.read(sp, eng, m, sp.state(m.base() + R.base() + m.issued(hi, hv)), h, mut):
            sp.entries[sp.cur]["paths"] += 1

            def chk(z):
                if s is None:
                    return
                try:
                    c, _ = W.cell(z, s)
                except Lost as e:
                    sp.require(z, FALSE, rule, str(e))
                    return
                o = z.norm(s.a[3])
                b = z.norm(c.base)
                ok = b.op == "fld" and b.a[1] == R.fdata and b.a[0].op == "at" and b.a[0].a[0] is R.P
                sp.require(z, B(ok), rule, "the reference is not into a page of the store")
                if ok:
                    own = mk("at", R.L, z.norm(R.pa(b.a[0].a[1])))
                    sp.require(z, B(z.norm(o.a[2]) is z.norm(own)), rule, "the page is read as laid out for another set")
                if room:
                    sp.require(z, lt(c.i, getf(z.norm(o.a[2]), R.flcap)), rule, "a slot beyond those the layout has room for is read")
            sp.cases(eng, y, chk)


def run(sp):
    sp.guard(layout.Columns(sp, "C04-layout").run, False, True)
    sp.guard(tuples_.check, sp, "C04-tuple", tuples_.SLOTS + tuples_.PTRS)
    sp.parallel([(c21.of, sp), (c21.build, sp), (c21.clone, sp)])
    sp.guard(lookups, sp)
    sp.guard(c06.initial, sp)
    for name in c06.OPS:
        sp.guard(c03.operation, sp, name, slots)
