"""C03: component values survive changes made to other entities.

The value of component C of an arbitrary live entity h is followed backwards from the
slot it is read from after an operation, through every write and copy on the path
(also those in loops, at the iteration that concerns C), to the slot it was in before:
it must arrive at h's own old slot. C is an arbitrary component type, C in T and
C in the entity's set are decided where they matter. The facts about pages and slots
that the walk relies on are shown preserved by every operation, as for C06.
"""
from spec import *
from store import *
from registry import *
from c06 import start, entries, possible, given, OPS
import c06
import frames
import sets
import common
import tuples as tuples_

ASSUMPTIONS = ["debug assertions are on", "archetype functions are set operations (C21)",
               "slots of a page do not overlap (C04)",
               "distinct pages own distinct memory (C18)", "handles are used with the store that issued them"]
FLOORS = {"entries": 20, "paths": 400, "C03-others": 100, "C03-own": 40, "C03-observe": 4, "C03-tuple": 200, "C03-common": 4, "C03-frame": 40}


class Lost(Exception):
    """the value does not come from where it should"""


def prepare(sp, eng):
    semantics(sp, eng)
    tuples(sp, eng)


def paths(sp, name):
    old = c06.semantics
    c06.semantics = prepare
    try:
        m, R, eng, ent, r = c06.paths(sp, name)
    finally:
        c06.semantics = old
    sp.axioms = sp.axioms + [members(R)]
    return m, R, eng, ent, r


def members(R):
    """sets as their members: what subset and isempty say of C"""
    def ax(st, atoms):
        for t in atoms:
            if t.op == "pred" and t.a[0] == "subset":
                k = st.known(t)
                if k is True:
                    st.assume(bor(neg(isin(t.a[1], CT)), isin(st.norm(t.a[2]), CT)))
            if t.op == "pred" and t.a[0] == "isempty" and st.known(t) is True:
                st.assume(neg(isin(t.a[1], CT)))
            if t.op in ("sminus", "sunion"):
                # equal sets have the same members
                q = st.norm(t)
                if q is not t:
                    a, b = isin(t, CT), isin(q, CT)
                    st.assume(bor(neg(a), b), bor(a, neg(b)))
    return ax


# ---------------------------------------------------------------- slots
class Cell:
    """component x of the i-th entity of the page whose memory is base, laid out for set k"""

    def __init__(self, base, i, k):
        self.base, self.i, self.k = base, i, k


def peel(t):
    return t.a[0] if t.op == "ptr" and t.a[1] is ZERO else t


def idx(k):
    """place of C in the tables of an archetype of set k"""
    return mk("idx", k, CT)


class Walk:
    def __init__(self, sp, eng, R):
        self.sp, self.eng, self.R = sp, eng, R
        a = sp.f
        self.foffs = a("ArchetypeLayout", "offsets")
        self.fsz = a("Archetype", "sizes")
        self.fcount = a("Archetype", "component_count")

    # -- sets of tables
    def lkey(self, st, v):
        v = st.norm(v)
        if v.op == "layout":
            return st.norm(v.a[0])
        if v.op == "at" and v.a[0] is self.R.L:
            return st.norm(keyof(mk("at", self.R.A, v.a[1])))
        raise Limit("layout of unknown origin " + str(show(v))[:200])

    def akey(self, st, v):
        return st.norm(keyof(st.norm(v)))

    def same(self, st, k1, k2):
        k1, k2 = st.norm(k1), st.norm(k2)
        return k1 is k2 or st.known(eq(k1, k2)) is True

    def cell(self, st, slot):
        """cell of the slot a reference was made of: (cell, tuple name)"""
        name, base, i, offs = slot.a
        o = st.norm(offs)
        if o.op == "fld":
            raise Limit("offsets of unknown origin")
        if o.op != "offs":
            raise Limit("offsets of unknown origin " + o.op)
        k = st.norm(o.a[1])
        if o.a[0] != name:
            raise Lost("offsets of one tuple type are used for another")
        if not self.same(st, k, self.lkey(st, o.a[2])):
            raise Lost("offsets are looked up in an archetype and layout that do not belong together")
        return Cell(peel(st.norm(base)), st.norm(i), k), name

    # -- addresses
    def address(self, st, off):
        """(set of the layout, component index in it, set of the sizes, component index in those, entity index)"""
        c, d = parts(st.norm(off))
        o, rest = None, []
        for mo, n in d.items():
            if len(mo) == 1 and mo[0].op == "mem" and mo[0].a[0].op == "fld" and mo[0].a[0].a[1] == self.foffs:
                if o is not None or n != 1:
                    raise Limit("address with two offsets")
                o = mo[0]
            else:
                rest.append((mo, n))
        if o is None:
            raise Limit("an address in a page without a component's offset: " + str(show(off))[:300])
        lk, li = self.lkey(st, o.a[0].a[0]), st.norm(tdiv(o.a[1], I(8)))
        sz = None
        if c:
            raise Limit("an address in a page with a constant part")
        i = ZERO
        for mo, n in rest:
            s = [x for x in mo if x.op == "mem" and x.a[0].op == "fld" and x.a[0].a[1] == self.fsz]
            if len(s) != 1 or (sz is not None and s[0] is not sz):
                raise Limit("an address in a page whose entity part is not a multiple of one size: " + str(show(off))[:300])
            sz = s[0]
            w = I(n)
            seen = False
            for x in mo:
                if x is sz and not seen:
                    seen = True
                    continue
                w = mul(w, x)
            i = add(i, w)
        if sz is None:
            return lk, li, None, None, ZERO
        return lk, li, self.akey(st, sz.a[0].a[0]), st.norm(tdiv(sz.a[1], I(8))), i

    def where(self, st, e, dst):
        """cell coordinates of one end of a copy: (base, entity index, set, component index)"""
        base, off = (e[1], e[2]) if dst else (e[3], e[4])
        lk, li, ak, ai, i = self.address(st, off)
        if ak is not None and not self.same(st, lk, ak):
            raise Lost("an address is made of the offset in one set and the size in another")
        if ak is not None and ai is not li and st.known(eq(ai, li)) is not True:
            raise Lost("an address is made of the offset of one component and the size of another")
        return peel(st.norm(base)), st.norm(i), lk, li

    def length(self, st, e, k, ci):
        """the number of bytes copied is the component's size"""
        t = st.norm(e[5])
        if not (t.op == "mem" and t.a[0].op == "fld" and t.a[0].a[1] == self.fsz):
            raise Limit("a copy of an unknown number of bytes " + str(show(t))[:200])
        ak, ai = self.akey(st, t.a[0].a[0]), st.norm(tdiv(t.a[1], I(8)))
        want = self.comp(st, k, ci)
        if want is None or self.comp(st, ak, ai) is not want:
            raise Lost("the number of bytes copied is not the component's size")

    def comp(self, st, k, ci):
        """which component the entry ci of set k's tables is (CT, or the term itself)"""
        ci = st.norm(ci)
        j = st.norm(idx(k))
        if ci is j or st.known(eq(ci, j)) is True:
            return CT
        return None

    # -- iterations that concern C
    def iteration(self, st, k, ci, kt):
        """the value of kt for which ci is the index of C in set k; None if there is none"""
        if not contains(ci, kt):
            return "any"
        if ci.op == "at" and ci.a[0].op == "common":
            side, k1, k2 = ci.a[0].a
            k1, k2 = st.norm(k1), st.norm(k2)
            mine, other = (k1, k2) if side == "l" else (k2, k1)
            if not self.same(st, mine, k):
                raise Lost("indices of one set are used in another's tables")
            if not st.decide(isin(other, CT)):
                return None
            return self.solve(st, ci.a[1], mk("upos", k1, k2, CT), kt)
        return self.solve(st, ci, st.norm(idx(k)), kt)

    def solve(self, st, e, want, kt):
        c, d = parts(e)
        n = d.get((kt,))
        if n not in (1, -1) or any(contains(x, kt) for mo in d for x in mo if mo != (kt,)):
            raise Limit("a loop over components by an index that is not followed")
        return st.norm(scale(sub(want, sub(e, scale(kt, n))), n))

    def axioms(self):
        """what is known of the common components of two sets (rules C03-common), and of C's index"""
        R = self.R

        def ax(st, atoms):
            for t in atoms:
                if t.op == "upos":
                    k1, k2 = st.norm(t.a[0]), st.norm(t.a[1])
                    if st.known(isin(k1, CT)) is True and st.known(isin(k2, CT)) is True:
                        st.assume(ge0(t))
                        for s, k in (("l", k1), ("r", k2)):
                            q = mk("common", s, k1, k2)
                            st.assume(lt(t, seqlen(q)), eq(mk("at", q, t), idx(k)))
                if t.op == "fld" and t.a[1] == self.fcount and t.a[0].op in ("at", "arch"):
                    k = st.norm(keyof(t.a[0]))
                    if st.known(isin(k, CT)) is True:
                        st.assume(ge0(idx(k)), lt(idx(k), t))
        return ax

    # -- the walk
    def back(self, st, c, node="cur"):
        """where the value of C in cell c comes from: ("given", tuple, values) or the cell it was in before"""
        if node == "cur":
            node = st.log
        while node is not None:
            r = self.step(st, c, node.e, node.p)
            if r == "stop":
                return r
            if isinstance(r, tuple):
                return r
            if isinstance(r, Cell):
                c = r
            node = node.p
        return c

    def step(self, st, c, e, below):
        k = e[0]
        if k == "tw":
            base = peel(st.norm(e[1]))
            if not self.eng.samebase(st, base, c.base):
                return None
            w, name = self.cell(st, mk("slot", e[3].a[0], e[1], e[2], e[3]))
            self.here(st, c, w.k)
            if not st.decide(eq(w.i, c.i)):
                return None
            if not st.decide(isin(mk("stup", name), CT)):
                return None
            return ("given", name, e[4])
        if k == "cp":
            return self.copied(st, c, e, None)
        if k == "loop":
            return self.loop(st, c, e)
        if k == "alloc":
            if peel(st.norm(e[1])) is c.base:
                raise Lost("the value is read from a new page no value was written to")
            return None
        if k in ("w", "bit", "fill"):
            if self.eng.samebase(st, peel(st.norm(e[1])), c.base):
                raise Lost("a page is written to other than through component slots")
        if k == "free" and self.eng.samebase(st, peel(st.norm(e[1])), c.base):
            raise Lost("the page was released")
        return None

    def here(self, st, c, k):
        if not self.same(st, k, c.k):
            raise Lost("a page is written to as laid out for another set: " + str(show(k))[:200] + " / " + str(show(c.k))[:200])

    def copied(self, st, c, e, kt):
        if not self.eng.samebase(st, peel(st.norm(e[1])), c.base):
            return None
        base, i, k, ci = self.where(st, e, True)
        self.here(st, c, k)
        if not st.decide(eq(i, c.i)):
            return None
        if self.comp(st, k, ci) is not CT:
            if st.known(eq(ci, idx(k))) is False:
                return None
            raise Limit("a copy of a component that is not identified")
        self.length(st, e, k, ci)
        sb, si, sk, sc = self.where(st, e, False)
        if self.comp(st, sk, sc) is not CT:
            raise Lost("a component is overwritten with another component's bytes")
        return Cell(sb, si, sk)

    def loop(self, st, c, e):
        """C's iteration of a loop over components"""
        rec = e[1]
        kt = mk("k", rec.uid, *rec.ks)
        # the iteration; the loop's own counter has its last value in what is known now
        it = mk("iter", rec.uid, *rec.ks)

        def at_(x, r):
            return (x[0],) + tuple(subst(t, {kt: r}) if isinstance(t, T) else t for t in x[1:])
        count = st.norm(e[2][-1]) if e[2] else kt
        mine = []
        for n, v in enumerate(rec.variants):
            if any(not contains(f, kt) and st.known(f) is False for f in v["facts"]):
                continue
            for x in v["log"]:
                if x[0] == "loop":
                    if any(y[0] in ("cp", "tw") for vv in x[1].variants for y in vv["log"]):
                        raise Limit("components copied in nested loops")
                elif x[0] in ("cp", "tw", "w", "fill", "bit") and self.mayhit(st, at_(x, it), c, it):
                    mine.append((n, at_(x, it)))
        if not mine:
            return None
        ks = []
        for n, x in mine:
            if x[0] != "cp":
                raise Limit("a page is written to in a loop other than by copies")
            base, i, k, ci = self.where(st, x, True)
            self.here(st, c, k)
            if contains(i, it) or contains(base, it):
                raise Limit("entities are moved in a loop")
            if not st.decide(eq(i, c.i)):
                continue
            r = self.iteration(st, k, ci, it)
            if r is None:
                continue
            if r == "any":
                raise Limit("every iteration of a loop writes the same component")
            ks.append((n, x, r))
        if not ks:
            return None
        r = ks[0][2]
        if any(q is not r for _, _, q in ks):
            raise Limit("iterations of a loop that write one component differ")
        if not st.decide(band(ge0(r), lt(r, count))):
            return None
        vs = [[subst(f, {kt: r}) for f in v["facts"]] for v in rec.variants]
        for fs in vs:
            self.sp.saturate(st, fs)
        n = self.eng.pick(st, rec, vs)
        out = None
        for x in reversed(rec.variants[n]["log"]):
            if x[0] == "loop":
                continue
            y = at_(x, r)
            self.sp.saturate(st, [t for t in y if isinstance(t, T)])
            q = self.step(st, c, y, None)
            if isinstance(q, tuple):
                return q
            if isinstance(q, Cell):
                out = c = q
        return out

    def mayhit(self, st, x, c, kt):
        b = peel(st.norm(x[1]))
        if contains(b, kt):
            raise Limit("pages written in a loop")
        return self.eng.samebase(st, b, c.base)


# ---------------------------------------------------------------- rules
def read(sp, eng, m, st, h, mut=False, tys=("C",)):
    """what get_components_refs finds for handle h and tuple type C: (state, slot or None)"""
    out = []
    name = "get_components_refs" + ("_mut" if mut else "")
    for y, r in sp.call(eng, st, sp.unit("Store", name), [m.ref, h], tys=list(tys)):
        if y.kind != "return":
            sp.cases(eng, y, lambda z: sp.violate("C03-observe", f"looking up components ends by {y.kind} ({y.why})", z))
            continue
        try:
            sp.saturate(y)
        except Contradiction:
            continue
        r = y.norm(r)
        if r.op == "S" and r.a[1] == "None":
            out.append((y, None))
        elif r.op == "S" and r.a[1] == "Some":
            s = y.norm(getf(r, "0"))
            if s.op != "slot":
                raise Limit("what get_components_refs returns: " + str(show(s))[:200])
            out.append((y, s))
        else:
            raise Limit("what get_components_refs returns: " + str(show(r))[:200])
    return out


def kept(sp, eng, m, R, x, h, hi, rule, what, st0, gone=None):
    """C of h, if it was there before, is found with its old value after; gone: C is to be removed then"""
    W = Walk(sp, eng, R)
    sp.axioms = [a for a in sp.axioms if not getattr(a, "walk", 0)] + [W.axioms()]
    sp.axioms[-1].__dict__["walk"] = 1

    def go(st):
        st0(st)
        sp.saturate(st)
        if not st.decide(R.HB(hi)):
            return
        old = st.norm(given(m, R, hi))
        if not st.decide(isin(old, CT)):
            return
        if gone is not None and st.decide(isin(gone, CT)):
            return
        was = Cell(st.norm(getf(mk("at", R.P, st.norm(R.EP(hi))), R.fdata)), st.norm(R.EI(hi)), old)
        for y, s in read(sp, eng, m, st, h):
            def chk(z):
                if s is None:
                    sp.require(z, FALSE, rule, what + ": not found any more")
                    return
                at(sp, W, z, s, was, rule, what)
            sp.cases(eng, y, chk)
    sp.cases(eng, x.copy(), go)


def at(sp, W, z, s, was, rule, what):
    """the value in slot s is what was in the old cell"""
    try:
        c, _ = W.cell(z, s)
        c = W.back(z, c)
    except Lost as e:
        sp.require(z, FALSE, rule, f"{what}: {e}")
        return
    if isinstance(c, tuple):
        sp.require(z, FALSE, rule, f"{what}: overwritten with a new value")
        return
    b, w = z.norm(c.base), z.norm(was.base)
    ok = W.eng.samebase(z, b, w)
    sp.require(z, band(B(ok), eq(c.i, was.i), B(W.same(z, c.k, was.k))), rule, f"{what}: read from another slot")


def others(sp, x, ret, m, R, eng, ent, name):
    if not possible(sp, R, x):
        return
    sp.entries[sp.cur]["paths"] += 1
    h, hi, hv = m.entity("h")

    def live(st):
        st.assume(*m.issued(hi, hv), m.alive(hi), eq(m.ver(hi), hv))
        if "create" not in name:
            st.assume(bor(neg(eq(hi, ent[1])), neg(eq(hv, ent[2]))))
    kept(sp, eng, m, R, x, h, hi, "C03-others", "a component of another entity", live)
    if name in ("add_components", "remove_components"):
        e, ei, ev = ent

        def same(st):
            st.assume(m.alive(ei), eq(m.ver(ei), ev))
        kept(sp, eng, m, R, x, e, ei, "C03-own", "another component of the entity", same, gone=mk("stup", "T"))
    # what the next operation relies on
    c06.invariants(sp, eng, m, R, x)


def before(sp):
    """the entity's own slot is read"""
    for mut in (False, True):
        m, R = start(sp)
        sp.entry("Store::get_components_refs" + ("_mut" if mut else ""))
        eng = sp.engine(otypes=REST)
        prepare(sp, eng)
        R.eng = eng
        W = Walk(sp, eng, R)
        sp.axioms = sp.axioms + [members(R), W.axioms()]
        h, hi, hv = m.entity("h")
        for y, s in read(sp, eng, m, sp.state(m.base() + R.base() + m.issued(hi, hv)), h, mut):
            sp.entries[sp.cur]["paths"] += 1

            def chk(z):
                live = band(m.alive(hi), eq(m.ver(hi), hv), R.HB(hi))
                if s is None:
                    if z.decide(live):
                        sp.saturate(z)
                        sp.require(z, neg(isin(z.norm(given(m, R, hi)), CT)), "C03-observe", "a component the entity has is not found")
                    return
                sp.require(z, live, "C03-observe", "a component is found for a dead entity or one without components")
                old = z.norm(given(m, R, hi))
                sp.require(z, isin(old, CT), "C03-observe", "a component the entity does not have is found")
                at(sp, W, z, s, Cell(z.norm(getf(mk("at", R.P, z.norm(R.EP(hi))), R.fdata)), z.norm(R.EI(hi)), old),
                   "C03-observe", "a component is read")
            sp.cases(eng, y, chk)


def operation(sp, name, do):
    m, R, eng, ent, r = paths(sp, name)
    jobs = []
    n = 8 * max(1, len(r) // 40)
    for k in range(min(n, len(r))):
        jobs.append((c06.some, sp, sp.cur, sp.axioms, do, r[k::n], m, R, eng, ent, name))
    sp.parallel(jobs)


def rest(sp):
    """no other function of a store writes to pages or changes the tables"""
    for f, ins in frames.methods(sp):
        name = f["n"].split("::")[-1]
        if name in OPS + ("drop",):
            continue
        sp.guard(untouched, sp, f, ins, name)


def untouched(sp, f, ins, name):
    m, R = start(sp)
    sp.entry(f"Store::{name} (frame)")
    eng = sp.engine(otypes=REST)
    prepare(sp, eng)
    R.eng = eng
    args, facts = frames.arguments(sp, m, ins)
    for x, _ in sp.call(eng, sp.state(m.base() + R.base() + facts), f["i"], args):
        if x.kind not in ("return", "panic"):
            sp.violate("C03-frame", f"{x.kind}: {x.why}", x)
            continue
        sp.entries[sp.cur]["paths"] += 1
        v = x.norm(x.mem.get(m.root, m.s))
        for path in ("Store.archetypes_container", "Store.entity_to_page", "Store.entity_to_index_in_page",
                     "Store.entity_has_archetype_bit_vec"):
            p0 = sp.fld(m.s, path)
            sp.require(x, B(x.norm(sp.fld(v, path)) is x.norm(p0)), "C03-frame", "the tables that say where components are are changed")
            for e in effects(x):
                if any(isinstance(t, T) and frames.rooted(x.norm(t), p0) for t in e[1:2]):
                    sp.require(x, FALSE, "C03-frame", "component memory is written to by an operation that is not to change components")


def effects(st):
    out = []

    def walk(l):
        for e in l:
            if e[0] == "loop":
                for v in e[1].variants:
                    walk(v["log"])
            elif e[0] in ("w", "bit", "fill", "cp", "free", "tw"):
                out.append(e)
    walk(st.logs())
    return out


def run(sp):
    sp.guard(common.check, sp, "C03-common")
    sp.guard(tuples_.check, sp, "C03-tuple", tuples_.SLOTS)
    sp.guard(before, sp)
    for name in OPS:
        sp.guard(operation, sp, name, others)
    rest(sp)
