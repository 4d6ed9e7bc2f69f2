"""Where the components of an entity are: pages, archetypes and the tables that say so.

Archetypes and their builders are looked at as the set of types they stand for (C21
shows their functions to be those set operations), so an archetype value has a key,
its set; layouts are functions of the set.
"""
from spec import *
from store import *
from sets import everyiter
import sets
from engine import Stop
import engine

REST = ("TagContainer", "OrderGroupContainer")


# ---------------------------------------------------------------- sets of types
CT = mk("type", "C")        # an arbitrary component type


def keyof(v):
    return v.a[0] if v.op == "arch" else mk("key", v)


def union(a, b):
    return b if a.op == "sempty" else mk("sunion", a, b)


def isin(k, x):
    """type x is in the set k"""
    if k.op == "stup" and k.a[0] == "C":
        return B(x is CT)
    if k.op == "sunion":
        return bor(isin(k.a[0], x), isin(k.a[1], x))
    if k.op == "sminus":
        return band(isin(k.a[0], x), neg(isin(k.a[1], x)))
    if k.op == "sempty":
        return FALSE
    return mk("pred", "has", k, x)


def semantics(sp, eng):
    """archetype functions as set operations"""
    def val(e, st, a):
        v = e.argval(st, a)
        if v.op == "refto":
            return v.a[0]
        if v.op == "ptr":
            return mk("pointee", v)
        return v

    def tup(e, fn):
        t = [e.tyname(e.p.tys[x]["s"]) for x in fn["a"] if x is not None]
        return mk("stup", t[0])

    def setb(e, st, a, k):
        if a.op != "ref":
            raise Limit("a builder that is not a plain value")
        e.write(st, a.a[0], list(a.a[1]), mk("bset", k))
        return a

    def bset(v):
        return v.a[0] if v.op == "bset" else mk("bsetof", v)

    def h(adt, name, f, trait=None):
        try:
            r = sp.fn(adt, name, trait)
        except Missing:
            return
        eng.handlers[r["n"]] = f

    B_ = "ArchetypeBuilder"
    h("Archetype", "is_same_as", lambda e, st, fn, a: eq(keyof(val(e, st, a[0])), keyof(val(e, st, a[1]))))
    h("Archetype", "clone", lambda e, st, fn, a: mk("arch", keyof(val(e, st, a[0]))))
    h("Archetype", "with_components", lambda e, st, fn, a: mk("arch", tup(e, fn)))
    h("ArchetypeLayout", "new", lambda e, st, fn, a: mk("layout", keyof(val(e, st, a[0]))))
    h(B_, "new", lambda e, st, fn, a: mk("bset", mk("sempty")))
    h(B_, "include_archetype", lambda e, st, fn, a: setb(e, st, a[0], union(bset(val(e, st, a[0])), keyof(val(e, st, a[1])))))
    h(B_, "include_components", lambda e, st, fn, a: setb(e, st, a[0], union(bset(val(e, st, a[0])), tup(e, fn))))
    h(B_, "exclude_components", lambda e, st, fn, a: setb(e, st, a[0], mk("sminus", bset(val(e, st, a[0])), tup(e, fn))))
    h(B_, "is_empty", lambda e, st, fn, a: mk("pred", "isempty", bset(val(e, st, a[0]))))
    h(B_, "build", lambda e, st, fn, a: mk("arch", bset(val(e, st, a[0]))))
    T_ = "component_tuple::ComponentTuple::"
    hs = eng.handlers
    hs[T_ + "into_archetype"] = lambda e, st, fn, a: mk("arch", tup(e, fn))
    hs[T_ + "is_archetype_include_types"] = lambda e, st, fn, a: mk("pred", "subset", tup(e, fn), keyof(val(e, st, a[0])))
    hs[T_ + "add_components_to_archetype_builder"] = lambda e, st, fn, a: setb(e, st, a[0], union(bset(val(e, st, a[0])), tup(e, fn)))
    hs[T_ + "remove_components_from_archetype_builder"] = lambda e, st, fn, a: setb(e, st, a[0], mk("sminus", bset(val(e, st, a[0])), tup(e, fn)))


def tuples(sp, eng):
    """what the functions of a component tuple T do with a page (rules of C03):
    its components are at the offsets the layout gives them, entity i's at the i-th place"""
    fdata = sp.f("ArchetypeDataPage", "components_data_ptr")
    T_ = "component_tuple::ComponentTuple::"
    hs = eng.handlers

    def val(e, st, a):
        v = e.argval(st, a)
        if v.op == "refto":
            return st.norm(v.a[0])
        if v.op == "ptr":
            return mk("pointee", v)
        return v

    def name(e, fn):
        return [e.tyname(e.p.tys[x]["s"]) for x in fn["a"] if x is not None][0]

    def offs(e, st, fn, a):
        return mk("offs", name(e, fn), keyof(val(e, st, a[0])), val(e, st, a[1]))

    def offs_if(e, st, fn, a):
        k, t = st.norm(keyof(val(e, st, a[0]))), name(e, fn)
        if st.decide(isin(k, CT) if t == "C" else mk("pred", "subset", mk("stup", t), k)):
            return some(offs(e, st, fn, a))
        return NONE

    def refs(e, st, fn, a):
        return mk("slot", name(e, fn), st.norm(getf(val(e, st, a[0]), fdata)), st.norm(a[1]), val(e, st, a[2]))

    def assign(e, st, fn, a):
        s = st.norm(a[0])
        if s.op != "slot":
            raise Limit("assignment to references of unknown origin")
        st.log = engine.Node(("tw", s.a[1], s.a[2], s.a[3], a[1]), st.log)
        return S("tup", None, [])
    hs[T_ + "get_offsets_unchecked"] = offs
    hs[T_ + "get_offsets"] = offs_if
    hs[T_ + "get_refs"] = refs
    hs[T_ + "get_refs_mut"] = refs
    hs[T_ + "assign_to_refs"] = assign

    def calc(e, st, fn, a):
        ks = [st.norm(keyof(val(e, st, x))) for x in a]
        r = []
        for f in ("lhs_indices", "rhs_indices"):
            r.append((sp.f("ArchetypesUnion", f), mk("common", f[0], *ks)))
        st.assume(eq(seqlen(r[0][1]), seqlen(r[1][1])))
        return S(sp.adt("ArchetypesUnion")["n"], None, r)
    hs[sp.fn("ArchetypesUnion", "calculate")["n"]] = calc


# ---------------------------------------------------------------- the tables
class Registry:
    def __init__(self, sp, m, s=None):
        f = sp.fld
        self.sp, self.m = sp, m
        s = m.s if s is None else s
        self.c = f(s, "Store.archetypes_container")
        A = "ArchetypesContainer."
        self.A = f(self.c, A + "archetypes")
        self.L = f(self.c, A + "layouts")
        self.AP = f(self.c, A + "archetype_to_pages")
        self.P = f(self.c, A + "pages")
        self.PA = f(self.c, A + "page_to_archetype")
        self.FA = f(self.c, A + "free_archetypes")
        self.FP = f(self.c, A + "free_pages")
        self.epp = f(s, "Store.entity_to_page")
        self.eip = f(s, "Store.entity_to_index_in_page")
        self.hbp = f(s, "Store.entity_has_archetype_bit_vec")
        self.fids = sp.f("ArchetypeDataPage", "entities_ids")
        self.fcap = sp.f("ArchetypeDataPage", "entities_capacity")
        self.fdata = sp.f("ArchetypeDataPage", "components_data_ptr")
        self.fpages = sp.f("ArchetypePages", "pages")
        self.flcap = sp.f("ArchetypeLayout", "entities_capacity")

    def normed(self, st):
        for n in ("c", "A", "L", "AP", "P", "PA", "FA", "FP", "epp", "eip", "hbp"):
            setattr(self, n, st.norm(getattr(self, n)))
        return self

    def base(self):
        n = seqlen(self.A)
        return [eq(n, seqlen(self.L)), eq(n, seqlen(self.AP)), eq(seqlen(self.P), seqlen(self.PA))]

    # -- before
    def EP(self, x):
        return mk("mem", self.epp, scale(x, 4))

    def EI(self, x):
        return mk("mem", self.eip, scale(x, 4))

    def HB(self, x):
        return mk("bit", self.hbp, x)

    def ids(self, p):
        return getf(mk("at", self.P, p), self.fids)

    def slot(self, p, i):
        return mk("at", self.ids(p), i)

    def pa(self, p):
        return mk("at", self.PA, p)

    def of(self, a):
        return getf(mk("at", self.AP, a), self.fpages)

    def listed(self, p):
        return mk("pred", "listed", p)

    def freep(self, p):
        return mk("pred", "freep", p)

    def freea(self, a):
        return mk("pred", "freea", a)

    def axioms(self):
        m = self.m
        nP, nA = seqlen(self.P), seqlen(self.A)

        def inlist(t, f, base):
            """(index of the outer element, index) when t is an element of the f list of an element of base"""
            if t.op == "at" and t.a[0].op == "fld" and t.a[0].a[1] == f and t.a[0].a[0].op == "at" and t.a[0].a[0].a[0] is base:
                return t.a[0].a[0].a[1], t.a[1]
            return None

        def ax(st, atoms):
            K = lambda b: st.known(b) is True
            for t in atoms:
                if t.op == "bit" and t.a[0] is self.hbp:
                    x = t.a[1]
                    if K(t) and K(m.alive(x)):
                        p, i = st.norm(self.EP(x)), st.norm(self.EI(x))
                        st.assume(lt(p, nP), lt(i, seqlen(self.ids(p))), eq(self.slot(p, i), x), self.listed(p))
                q = inlist(t, self.fids, self.P)
                if q and K(lt(q[0], nP)) and K(lt(q[1], seqlen(t.a[0]))):
                    st.assume(ge0(t), m.alive(t), self.HB(t), eq(self.EP(t), q[0]), eq(self.EI(t), q[1]), self.listed(q[0]), lt(t, m.next))
                q = inlist(t, self.fpages, self.AP)
                if q and K(lt(q[0], nA)) and K(lt(q[1], seqlen(t.a[0]))):
                    st.assume(ge0(t), lt(t, nP), eq(self.pa(t), q[0]), eq(mk("lpos", t), q[1]), self.listed(t))
                if t.op == "at" and t.a[0] is self.FP and K(lt(t.a[1], seqlen(self.FP))):
                    st.assume(ge0(t), lt(t, nP), self.freep(t), eq(mk("fpos", t), t.a[1]))
                if t.op == "at" and t.a[0] is self.FA and K(lt(t.a[1], seqlen(self.FA))):
                    st.assume(ge0(t), lt(t, nA), self.freea(t), eq(mk("fapos", t), t.a[1]))
                if t.op == "pred" and t.a[0] == "listed":
                    p = t.a[1]
                    k = st.known(t)
                    if k is True:
                        a = st.norm(self.pa(p))
                        l = st.norm(mk("lpos", p))
                        st.assume(lt(p, nP), ge0(a), lt(a, nA), ge0(l), lt(l, seqlen(self.of(a))), eq(mk("at", self.of(a), l), p),
                                  neg(self.freep(p)), neg(self.freea(a)))
                        pg = mk("at", self.P, p)
                        st.assume(le(seqlen(self.ids(p)), getf(pg, self.fcap)), eq(getf(pg, self.fcap), getf(mk("at", self.L, a), self.flcap)))
                    elif k is False:
                        if K(lt(p, nP)):
                            st.assume(self.freep(p), eq(seqlen(self.ids(p)), ZERO))
                if t.op == "pred" and t.a[0] == "subset" and st.known(t) is False:
                    st.assume(neg(eq(union(t.a[2], t.a[1]), t.a[2])))
                if t.op == "pred" and t.a[0] == "freep" and K(t):
                    p = t.a[1]
                    l = mk("fpos", p)
                    st.assume(lt(p, nP), neg(self.listed(p)), eq(seqlen(self.ids(p)), ZERO), ge0(l), lt(l, seqlen(self.FP)), eq(mk("at", self.FP, l), p))
                if t.op == "pred" and t.a[0] == "freea":
                    a = t.a[1]
                    k = st.known(t)
                    if k is True:
                        l = mk("fapos", a)
                        st.assume(lt(a, nA), eq(seqlen(self.of(a)), ZERO), ge0(l), lt(l, seqlen(self.FA)), eq(mk("at", self.FA, l), a))
                    elif k is False and K(lt(a, nA)):
                        st.assume(le(ONE, seqlen(self.of(a))))
                if t.op == "at" and t.a[0] is self.P and K(lt(t.a[1], nP)):
                    if K(le(ONE, seqlen(getf(t, self.fids)))):
                        st.assume(self.listed(t.a[1]))
            ks = [t for t in atoms if t.op == "key" and t.a[0].op == "at" and t.a[0].a[0] is self.A]
            for x in range(len(ks)):
                for y in range(x):
                    i, j = ks[x].a[0].a[1], ks[y].a[0].a[1]
                    if i is not j and K(lt(i, nA)) and K(lt(j, nA)):
                        # different archetypes are different sets
                        if K(eq(ks[x], ks[y])):
                            st.assume(eq(i, j))
                        elif st.known(eq(i, j)) is False:
                            st.assume(neg(eq(ks[x], ks[y])))
        return [ax]

    # -- after
    def post(self, st):
        v = st.norm(st.mem.get(self.m.root, self.m.s))
        return Registry(self.sp, self.m, v).normed(st)

    def member(self, st, seq, v, base):
        """v is in the list; base(list) for lists as they were"""
        seq = st.norm(seq)
        if seq.op == "vempty":
            return FALSE
        if seq.op == "vlit":
            return bor(*[eq(e, v) for e in seq.a])
        if seq.op == "vpush":
            return bor(self.member(st, seq.a[0], v, base), eq(seq.a[1], v))
        if seq.op == "vins":
            return bor(self.member(st, seq.a[0], v, base), eq(seq.a[2], v))
        if seq.op in ("vpop", "vrem", "vswrm"):
            b = seq.a[0]
            i = seq.a[1] if seq.op != "vpop" else sub(seqlen(b), ONE)
            return band(self.member(st, b, v, base), neg(eq(self.eng.at(st, st.norm(b), st.norm(i)), v)))
        return base(seq)

    def oldlist(self, seq):
        """membership in a page list as it was"""
        if seq.op == "fld" and seq.a[1] == self.fpages and seq.a[0].op == "at" and seq.a[0].a[0] is self.AP:
            a = seq.a[0].a[1]
            return lambda v: band(self.listed(v), eq(self.pa(v), a))
        if seq is self.FP:
            return self.freep
        if seq is self.FA:
            return self.freea
        raise Limit(f"a list of unknown origin: {str(show(seq))[:200]}")

    def isin(self, st, seq, v):
        return self.member(st, seq, v, lambda s: self.oldlist(s)(v))

    def nodup(self, st, seq):
        seq = st.norm(seq)
        if seq.op == "vempty":
            return TRUE
        if seq.op in ("vpush", "vins"):
            e = seq.a[1] if seq.op == "vpush" else seq.a[2]
            return band(self.nodup(st, seq.a[0]), neg(self.isin(st, seq.a[0], e)))
        if seq.op in ("vpop", "vrem", "vswrm"):
            return self.nodup(st, seq.a[0])
        self.oldlist(seq)
        return TRUE


def tab(eng, st, p, i):
    """entry i of a table of 32-bit numbers"""
    v = st.norm(p)
    b, off = (v.a[0], v.a[1]) if v.op == "ptr" else (v, ZERO)
    return st.norm(eng.load(st, b, add(off, scale(i, 4))))


def bitof(eng, st, p, i):
    v = st.norm(p)
    b, off = (v.a[0], v.a[1]) if v.op == "ptr" else (v, ZERO)
    return eng.bitload(st, b, add(i, scale(off, 8)))


def instantiate(st, cands):
    """what loops passed through say of the iteration that looks at entry j of list l, for each (l, j)"""
    evs = [e for e in st.events() if e[0] == "loop"]
    cands = [(st.norm(l), st.norm(j)) for l, j in cands]
    done = set()
    for e in evs:
        rec = e[1]
        kt = mk("k", rec.uid, *rec.ks)
        reads = set()
        for v in rec.variants:
            for f in v["facts"]:
                reads |= {a for a in atoms_in(f) if a.op == "at" and contains(a.a[1], kt)}
        for a in reads:
            l = st.norm(a.a[0])
            while l.op == "vpush":
                l = l.a[0]
            c, d = parts(a.a[1])
            k = d.get((kt,))
            if k not in (1, -1) or any(kt in m or any(contains(y, kt) for y in m) for m in d if m != (kt,)):
                continue
            for l2, j in cands:
                if l2 is not l:
                    continue
                n = st.norm(scale(sub(j, sub(a.a[1], scale(kt, k))), k))
                if (rec.uid, n) in done:
                    continue
                done.add((rec.uid, n))
                for b in everyiter([e], {}, [n]):
                    st.assume(b)
    st.facts.propagate()


def places(R, st):
    """the positions the tables are known to hold things at"""
    out = []
    for a in sorted(sets.atoms(st), key=lambda a: a.id):
        if a.op == "lpos":
            out.append((R.of(st.norm(R.pa(a.a[0]))), a))
        elif a.op == "fpos":
            out.append((R.FP, a))
        elif a.op == "fapos":
            out.append((R.FA, a))
    return out
