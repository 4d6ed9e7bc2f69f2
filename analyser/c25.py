"""C25: any component set that fits a page can be stored.

Making the layout of an arbitrary set: what the loops over the set's types carry along
is compared with three sequences defined by the property itself - the sum of the sizes,
the sum of the alignments, and the end of one row laid out with padding - by induction
over the loops' own steps. With that, for a set whose row ends within a page, no way
through ends by a panic, no subtraction or division fails, and the layout has room for
one entity at least. For stores whose layouts have room for one entity, no operation
that gives an entity components ends by a panic. Neither does making an archetype of a
list of types that is not empty.
"""
from spec import *
from store import *
from registry import *
from sets import Seq
from engine import locname
import engine as engine_
import c06
import c21
import layout

ASSUMPTIONS = ["debug assertions are on", "archetype functions are set operations (C21)",
               "component types are not of size zero, sizes are multiples of alignments (the property, language)",
               "sums of sizes and ids do not exceed 64 and 32 bits", "tables of pages and archetypes are consistent (C06)"]
FLOORS = {"entries": 18, "paths": 20, "C25-layout": 4, "C25-room": 1, "C25-archetype": 12, "C25-store": 2}

SIZES, ALIGNS, ROW = mk("init", "sum.sizes"), mk("init", "sum.aligns"), mk("init", "row.end")


class Sequences:
    """bounds on what finished loops over the set carry, in terms of the property's sequences"""

    def __init__(self, sp, n, sizes, aligns):
        self.sp, self.n, self.sizes, self.aligns = sp, n, sizes, aligns
        self.cols = layout.Columns(sp, "C25-layout")
        self.done = {}

    def facts(self, st, extra=()):
        """about the loops st has left, in the order they were run"""
        out, seen = [], set()
        todo = [a for t in self.terms(st) + [st.norm(x) for x in extra] for a in atoms_in(t) if a.op == "phi"]
        todo.sort(key=lambda a: (a.a[0], a.id))
        for phi in todo:
            if phi in seen:
                continue
            seen.add(phi)
            rec = engine_.LOOPS.get(phi.a[0])
            if rec is None or not rec.variants:
                continue
            if st.known(eq(st.norm(mk("k", rec.uid, *rec.ks)), st.norm(self.n))) is not True:
                continue
            if phi not in self.done:
                self.done[phi] = self.of(rec, phi, list(out))
            out += self.done[phi]
        return out

    def terms(self, st):
        return list(st.facts.list) + list(st.facts.sub) + list(st.facts.sub.values())

    def of(self, rec, phi, before):
        sp = self.sp
        v0 = [v for l, v in rec.v0.items() if l == phi.a[1]]
        if len(v0) != 1:
            return []
        v0 = v0[0]
        kt = mk("k", rec.uid, *rec.ks)
        size, al = mk("mem", self.sizes, scale(kt, 8)), mk("mem", self.aligns, scale(kt, 8))
        steps = []
        for v in rec.variants:
            st = v["st"].copy()
            try:
                st.assume(*before)
                sp.saturate(st, [size, al])
            except Contradiction:
                continue
            nxt = [z for q, z in v["vals"].items() if locname(q) == phi.a[1]]
            if len(nxt) > 1:
                return []
            nxt = self.cols.arith(st, nxt[0], al) if nxt else phi
            steps.append((st, nxt, st.norm(sub(nxt, phi))))
        if not steps:
            return []
        out = []
        c, d = parts(steps[0][2])
        alpha = ZERO
        for m, k in d.items():
            if m.count(size) == 1:
                rest = list(m)
                rest.remove(size)
                alpha = add(alpha, build(0, {tuple(rest): k}) if rest else I(k))
        if contains(alpha, kt):
            return []

        def all_(f):
            return all(self.ok(st, f(d)) for st, _, d in steps)
        end = lambda b, g: add(add(v0, mul(alpha, SIZES)), add(scale(ALIGNS, b), scale(self.n, g)))
        for b, g in ((0, 0), (1, -1), (1, 0)):
            line = add(mul(alpha, size), add(scale(al, b), I(g)))
            if all_(lambda d: le(d, line)):
                out.append(le(phi, end(b, g)))
                break
        for b, g in ((1, 0), (1, -1), (0, 0)):
            line = add(mul(alpha, size), add(scale(al, b), I(g)))
            if all_(lambda d: le(line, d)):
                out.append(le(end(b, g), phi))
                break
        # the end of a row: padded up to the alignment, one of each
        def row(st, nxt):
            o = st.norm(sub(nxt, size))
            pad = sub(o, phi)
            return self.ok(st, ge0(pad)) and self.ok(st, lt(pad, al)) and self.cols.multiple(st, o, al)
        if ival(v0) == 0 and all(row(st, nxt) for st, nxt, _ in steps):
            out.append(eq(phi, ROW))
        return out

    def ok(self, st, c):
        c = st.norm(c)
        if st.known(c) is True:
            return True
        z = st.copy()
        try:
            self.sp.saturate(z, [c])
        except Contradiction:
            return True
        return z.known(z.norm(c)) is True or self.sp.refuted(z, neg(c))


def new(sp):
    psize, _ = layout.pages(sp, "C25-layout")
    a = mk("init", "s")
    sizes, aligns = sp.fld(a, "Archetype.sizes"), sp.fld(a, "Archetype.aligns")
    n = c21.count(sp, a)
    f = sp.entry("ArchetypeLayout::new")
    old = sp.axioms

    def ax(st, atoms):
        for t in atoms:
            if t.op == "mem" and t.a[0] in (sizes, aligns):
                st.assume(le(ONE, t))
            if t.op == "div" and isinstance(t.a[1], T) and st.known(le(ONE, t.a[1])) is True and st.known(ge0(t.a[0])) is True:
                q = mul(t, t.a[1])
                st.assume(le(q, t.a[0]), lt(t.a[0], add(q, t.a[1])))
    sp.axioms = [ax]
    eng = sp.engine()
    eng.onassert = lambda st, c: eng.pending.append((st.copy(), c, eng.where(st)))
    fits = [le(ONE, n), le(n, SIZES), le(n, ALIGNS), le(SIZES, ROW), le(ROW, I(psize))]
    q = Sequences(sp, n, sizes, aligns)
    k = 0

    def known(y, *extra):
        """y with what is known of the loops behind it, or None"""
        z = y.copy()
        try:
            z.assume(*q.facts(y, extra))
            sp.saturate(z)
        except Contradiction:
            return None
        return z
    for y, r in sp.call(eng, sp.state(fits), sp.unit("ArchetypeLayout", "new"), [mk("ref", ("P", "s"), ())]):
        sp.entries[sp.cur]["paths"] += 1
        z = known(y, *([sp.fld(r, "ArchetypeLayout.entities_capacity")] if y.kind == "return" else []))
        if y.kind != "return":
            sp.require(y, B(z is None), "C25-layout", f"making the layout of a set that fits a page ends by {y.kind} ({y.why})")
            continue
        k += 1
        if z is not None:
            sp.require(z, le(ONE, z.norm(sp.fld(r, "ArchetypeLayout.entities_capacity"))), "C25-room",
                       "the layout of a set that fits a page has room for no entity")
    for y, c, where in eng.pending:
        z = known(y, c)
        if z is not None:
            sp.require(z, c, "C25-layout", "a check while making the layout of a set that fits a page may fail", where)
    sp.axioms = old
    if not k:
        sp.violate("C25-layout", "a layout is never made")


def storing(sp, name):
    """no way through an operation that stores components ends by a panic"""
    m, R = c06.start(sp)
    es, ent = c06.entries(sp, m)
    name, args, facts, tys = [x for x in es if x[0] == name][0]
    f = sp.fn("Store", name)
    sp.entry(f["n"])
    eng = sp.engine(otypes=REST)
    semantics(sp, eng)
    R.eng = eng
    nA = seqlen(R.A)

    def ax(st, atoms):
        for t in atoms:
            if t.op == "fld" and t.a[1] == R.flcap:
                l = st.norm(t.a[0])
                if l.op == "layout" or l.op == "at" and l.a[0] is R.L and st.known(lt(l.a[1], nA)) is True:
                    st.assume(le(ONE, t))
    sp.axioms = sp.axioms + [ax]
    for x, ret in sp.call(eng, sp.state(m.base() + R.base() + facts), f["i"], args, tys=tys):
        sp.entries[sp.cur]["paths"] += 1
        if x.kind == "return":
            continue
        sp.require(x, B(not c06.possible(sp, R, x)), "C25-store", f"giving an entity components ends by {x.kind} ({x.why})")


def making(sp):
    """no way through making an archetype of a list that is not empty ends by a panic"""
    b = mk("init", "s")
    pre = sp.fld(b, "ArchetypeBuilder.component_types")
    a, ra, fa = c21.arch(sp, "s")
    jobs = [("ArchetypeBuilder::build", sp.unit("ArchetypeBuilder", "build"), [mk("ref", ("P", "s"), ())], [le(ONE, seqlen(pre))]),
            ("<Archetype as Clone>::clone", sp.unit("Archetype", "clone"), [ra], fa)]
    for name, u, args, facts in jobs:
        sp.entry(name)
        for y, r in sp.call(sp.engine(), sp.state(facts), u, args):
            sp.entries[sp.cur]["paths"] += 1
            sp.require(y, B(y.kind == "return"), "C25-archetype", f"making an archetype ends by {y.kind} ({y.why})")


def tuple_(sp, impl, names):
    """nor making one of a tuple of types, of any arity"""
    c = [f for l in sp.p.fns.values() for f in l if f["n"] == f"{impl}::into_archetype"]
    sp.entry(impl.split(" as ")[0] + ">::into_archetype")
    K = sp.f("ComponentType", "id")
    for y, r in sp.call(sp.engine(), sp.state(), c[0]["i"], [], tys=names):
        sp.entries[sp.cur]["paths"] += 1
        if y.kind == "return":
            sp.require(y, TRUE, "C25-archetype", "")
            continue
        srt = [e for e in y.events() if e[0] == "sort"]
        pre = y.norm(srt[0][1]) if srt else None
        sp.require(y, B(pre is not None and c21.Sets([Seq(pre, K)]).refutes(y, Seq(pre, K).has(mk("typeid", names[0])))),
                   "C25-archetype", f"making an archetype ends by {y.kind} ({y.why})")


def run(sp):
    sp.guard(new, sp)
    sp.guard(making, sp)
    sp.parallel([(tuple_, sp, i, n) for i, n in c21.tuples(sp)] + [(storing, sp, n) for n in ("create_entity", "create_entity_with_archetype", "add_components")])
