"""C06: storage of component sets.

The tables that say which page holds an entity and which set a page is laid out for
agree in every reachable store: each live entity with components sits in exactly one
slot, each slot belongs to a live entity, each page is in one list, free lists hold
only what is empty, and no two archetypes are the same set. This is shown to be
preserved by every operation that writes the tables (arbitrary witness on the state
each path ends in), and with it the set reported for an entity is followed through
every operation.
"""
from spec import *
from store import *
from registry import *
from owners import *
import frames
import c21

ASSUMPTIONS = ["debug assertions are on", "archetype functions are set operations (C21)",
               "distinct tables are distinct buffers (C18)", "handles are used with the store that issued them"]
FLOORS = {"entries": 7, "C06-slot-owner": 100, "C06-page-lost": 100, "C06-list-once": 100, "C06-free-page": 100,
          "C06-free-archetype": 100, "C06-archetype-twice": 50, "C06-others": 50, "C06-given": 5}


def start(sp):
    m = StoreModel(sp)
    R = Registry(sp, m)
    sp.axioms = m.axioms() + R.axioms()
    return m, R


def entries(sp, m):
    e, ei, ev = m.entity("e")
    arch = mk("ref", ("P", "archetype"), ())
    return [("create_entity", [m.ref], [], None),
            ("create_entity_with_archetype", [m.ref, arch], [], None),
            ("destroy_entity", [m.ref, e], m.issued(ei, ev), None),
            ("add_components", [m.ref, e, mk("init", "comps")], m.issued(ei, ev), ["T"]),
            ("remove_components", [m.ref, e], m.issued(ei, ev), ["T"])], (e, ei, ev)


def paths(sp, name):
    m, R = start(sp)
    es, ent = entries(sp, m)
    name, args, facts, tys = [x for x in es if x[0] == name][0]
    f = sp.fn("Store", name)
    sp.entry(f["n"])
    eng = sp.engine(otypes=REST)
    semantics(sp, eng)
    R.eng = eng
    st = sp.state(m.base() + R.base() + facts)
    return m, R, eng, ent, [(x, ret) for x, ret in sp.call(eng, st, f["i"], args, tys=tys) if x.kind == "return"]


def possible(sp, R, x):
    """a search that came to nothing would have met the entry that is known to be there"""
    try:
        for _ in range(2):
            sp.saturate(x)
            instantiate(x, places(R, x))
    except Contradiction:
        return False
    return True


class After:
    """reads of the state an operation ends in"""

    def __init__(self, sp, eng, m, R, st):
        self.sp, self.eng, self.st = sp, eng, st
        self.m = m.post(st)
        self.R = R.post(st)

    def alive(self, i):
        return bitof(self.eng, self.st, self.m.alivep, i)

    def hb(self, i):
        return bitof(self.eng, self.st, self.R.hbp, i)

    def ep(self, i):
        return tab(self.eng, self.st, self.R.epp, i)

    def ei(self, i):
        return tab(self.eng, self.st, self.R.eip, i)

    def at(self, s, i):
        return self.st.norm(self.eng.at(self.st, self.st.norm(s), self.st.norm(i)))

    def f(self, v, k):
        return self.st.norm(self.eng.getfield(self.st, v, k) if hasattr(self.eng, "getfield") else getf(v, k))

    def ids(self, p):
        return self.f(self.at(self.R.P, p), self.R.fids)

    def of(self, a):
        return self.f(self.at(self.R.AP, a), self.R.fpages)

    def pa(self, p):
        return self.at(self.R.PA, p)


def invariants(sp, eng, m, R, x, only=None):
    nP = lambda A: seqlen(A.R.P)
    nA = lambda A: seqlen(A.R.A)
    w, w2 = mk("init", "any.i"), mk("init", "any.j")

    def req(st, c, rule, what):
        return sp.require(st, c, "C06-" + rule, what)

    def see(st, *cands):
        sp.saturate(st)
        instantiate(st, [(l, st.norm(c)) for c in cands for l in (R.A,)] + places(R, st))
        sp.saturate(st)

    def a_(st):
        """an entity with components is in the slot its tables name"""
        A = After(sp, eng, m, R, st)
        st.assume(ge0(w), lt(w, A.m.next), A.alive(w))
        st.assume(A.hb(w))
        p, i = A.ep(w), A.ei(w)
        sp.saturate(st)
        req(st, lt(p, nP(A)), "slot-page", "a live entity's page index lies beyond the pages")
        ids = A.ids(p)
        if not req(st, lt(i, seqlen(ids)), "slot-index", "a live entity's index lies beyond its page's entities"):
            return
        req(st, eq(A.at(ids, i), w), "slot-owner", "the slot of a live entity holds another id")
        a = A.pa(p)
        req(st, lt(a, nA(A)), "slot-listed", "a live entity's page belongs to no archetype")
        req(st, R.isin(st, A.of(a), p), "slot-listed", "a live entity's page is not in its archetype's list")

    def b_(st):
        """a slot holds a live entity whose tables name it"""
        A = After(sp, eng, m, R, st)
        p, i = mk("init", "any.p"), w
        st.assume(ge0(p), lt(p, nP(A)), ge0(i))
        ids = A.ids(p)
        st.assume(lt(i, seqlen(ids)))
        v = A.at(ids, i)
        sp.saturate(st)
        req(st, A.alive(v), "slot-live", "a slot holds an id that is not alive")
        req(st, A.hb(v), "slot-has", "a slot holds an entity recorded as having no components")
        req(st, eq(A.ep(v), p), "slot-unique", "an entity in a page's list is recorded in another page")
        req(st, eq(A.ei(v), i), "slot-unique", "an entity in a page's list is recorded at another index")
        a = A.pa(p)
        req(st, R.isin(st, A.of(a), p), "page-listed", "a page with entities is in no archetype's list")

    def c_(st):
        """a page in an archetype's list is that archetype's, once"""
        A = After(sp, eng, m, R, st)
        a, j = w, w2
        st.assume(ge0(a), lt(a, nA(A)), ge0(j))
        l = A.of(a)
        st.assume(lt(j, seqlen(l)))
        q = A.at(l, j)
        sp.saturate(st)
        req(st, lt(q, nP(A)), "list-page", "an archetype lists a page that does not exist")
        req(st, eq(A.pa(q), a), "list-owner", "an archetype lists a page that belongs to another")
        req(st, R.nodup(st, l), "list-once", "an archetype lists a page twice")
        pg = A.at(A.R.P, q)
        cap = A.f(pg, R.fcap)
        req(st, eq(cap, A.f(A.at(A.R.L, a), R.flcap)), "page-capacity", "a page's capacity is not that of its archetype's layout")
        req(st, le(seqlen(A.f(pg, R.fids)), cap), "page-capacity", "a page holds more entities than its layout has room for")
        req(st, neg(R.isin(st, A.R.FP, q)), "list-free", "a page in use is in the free list")

    def d_(st):
        """free pages are empty and not in use"""
        A = After(sp, eng, m, R, st)
        st.assume(ge0(w), lt(w, seqlen(A.R.FP)))
        q = A.at(A.R.FP, w)
        sp.saturate(st)
        req(st, lt(q, nP(A)), "free-page", "a free page does not exist")
        req(st, eq(seqlen(A.ids(q)), ZERO), "free-page", "a free page holds entities")
        req(st, R.nodup(st, A.R.FP), "free-page", "a page is in the free list twice")

    def e_(st):
        """free archetypes have no pages, archetypes without pages are free"""
        A = After(sp, eng, m, R, st)
        st.assume(ge0(w), lt(w, nA(A)))
        see(st, w)
        free = R.isin(st, A.R.FA, w)
        n = seqlen(A.of(w))
        req(st, bor(neg(free), eq(n, ZERO)), "free-archetype", "an archetype in use is in the free list")
        req(st, bor(free, neg(eq(n, ZERO))), "free-archetype", "an archetype without pages is not reusable")

    def e2_(st):
        A = After(sp, eng, m, R, st)
        st.assume(ge0(w), lt(w, seqlen(A.R.FA)))
        see(st, A.at(A.R.FA, w))
        req(st, lt(A.at(A.R.FA, w), nA(A)), "free-archetype", "a free archetype does not exist")
        req(st, R.nodup(st, A.R.FA), "free-archetype", "an archetype is in the free list twice")

    def f_(st):
        """different archetypes are different sets"""
        A = After(sp, eng, m, R, st)
        st.assume(ge0(w), lt(w, nA(A)), ge0(w2), lt(w2, nA(A)), neg(eq(w, w2)))
        see(st, w, w2)
        k1, k2 = st.norm(keyof(A.at(A.R.A, w))), st.norm(keyof(A.at(A.R.A, w2)))
        sp.saturate(st, [k1, k2])
        req(st, neg(eq(k1, k2)), "archetype-twice", "two archetypes are the same set")

    def g_(st):
        """tables grow together; the layout of an archetype is the layout of its set"""
        A = After(sp, eng, m, R, st)
        for t in (A.R.L, A.R.AP):
            req(st, eq(nA(A), seqlen(t)), "lengths", "the archetype tables have different lengths")
        req(st, eq(nP(A), seqlen(A.R.PA)), "lengths", "the page tables have different lengths")
        st.assume(ge0(w), lt(w, nA(A)))
        a, l = A.at(A.R.A, w), A.at(A.R.L, w)
        if a.op == "at" and l.op == "at":
            req(st, B(a.a[0] is R.A and l.a[0] is R.L and a.a[1] is l.a[1]), "layout", "an archetype is paired with another's layout")
        else:
            req(st, B(l.op == "layout" and l.a[0] is st.norm(keyof(a))), "layout", "an archetype's layout is not that of its set")

    def h_(st):
        """no page is lost"""
        A = After(sp, eng, m, R, st)
        st.assume(ge0(w), lt(w, nP(A)))
        a = A.pa(w)
        if st.known(lt(w, seqlen(R.P))) is not False:
            st.decide(R.listed(w))
        sp.saturate(st)
        if st.decide(R.isin(st, A.R.FP, w)):
            return
        if not req(st, lt(a, nA(A)), "page-lost", "a page that is not free belongs to no archetype"):
            return
        req(st, R.isin(st, A.of(a), w), "page-lost", "a page is neither free nor in its archetype's list")

    for f in (a_, b_, c_, d_, e_, e2_, f_, g_, h_):
        if only and f.__name__ not in only:
            continue
        sp.cases(eng, x.copy(), f)


def component_set(sp, eng, m, st, h):
    """(state, set or None) the store reports for a handle"""
    out = []
    for y, r in sp.call(eng, st, sp.unit("Store", "get_entity_archetype"), [m.ref, h]):
        if y.kind != "return":
            sp.cases(eng, y, lambda z: sp.violate("C06-observe", f"asking for the component set ends by {y.kind} ({y.why})", z))
            continue
        try:
            sp.saturate(y)
        except Contradiction:
            continue
        r = y.norm(r)
        if r.op == "S" and r.a[1] == "None":
            out.append((y, None))
        elif r.op == "S" and r.a[1] == "Some":
            root, proj = eng.deref(y, getf(r, "0"), "r", None)
            out.append((y, keyof(y.norm(eng.read(y, root, proj)))))
        else:
            raise Limit("the component set of an entity: " + str(show(r))[:200])
    return out


def given(m, R, i):
    """the set recorded for a live entity with components"""
    return keyof(mk("at", R.A, R.pa(R.EP(i))))


def reported(sp, eng, m, R, x, ret, ent, name):
    """what is reported for the new entity and for every other live one"""
    h, hi, hv = m.entity("h")

    def others(st):
        st.assume(*m.issued(hi, hv), m.alive(hi), eq(m.ver(hi), hv))
        if "create" not in name:
            # the entity the operation names has its own rule
            st.assume(bor(neg(eq(hi, ent[1])), neg(eq(hv, ent[2]))))
        has_ = st.decide(R.HB(hi))
        sp.saturate(st)
        old = st.norm(given(m, R, hi)) if has_ else None
        for y, k in component_set(sp, eng, m, st, h):
            def chk(z):
                if old is None:
                    sp.require(z, B(k is None), "C06-others", "an entity without components is reported to have some after the operation")
                elif k is None:
                    sp.require(z, FALSE, "C06-others", "another entity's components are gone after the operation")
                else:
                    sp.require(z, eq(k, old), "C06-others", "another entity's component set changed")
            sp.cases(eng, y, chk)
    sp.cases(eng, x.copy(), others)

    def born(st):
        for y, k in component_set(sp, eng, m, st, ret):
            def chk(z):
                if name == "create_entity":
                    sp.require(z, B(k is None), "C06-given", "a new entity without components is reported to have some")
                else:
                    want = keyof(mk("init", "archetype"))
                    sp.require(z, eq(k, want) if k is not None else FALSE, "C06-given", "a new entity's component set is not the one given")
            sp.cases(eng, y, chk)
    if "create" in name:
        sp.cases(eng, x.copy(), born)


def preserve(sp, x, ret, m, R, eng, ent, name):
    if possible(sp, R, x):
        sp.entries[sp.cur]["paths"] += 1
        invariants(sp, eng, m, R, x)
        reported(sp, eng, m, R, x, ret, ent, name)


def operation(sp, name, do):
    """the rules after each way the operation can end"""
    m, R, eng, ent, r = paths(sp, name)
    jobs = []
    n = 8 * max(1, len(r) // 40)
    for k in range(min(n, len(r))):
        jobs.append((some, sp, sp.cur, sp.axioms, do, r[k::n], m, R, eng, ent, name))
    sp.parallel(jobs)


def some(sp, cur, axioms, do, r, *a):
    sp.axioms = axioms
    sp.entry(cur)
    for x, ret in r:
        do(sp, x, ret, *a)


def before(sp):
    """the tables are read as the rules take them to be"""
    m, R = start(sp)
    sp.entry("Store::get_entity_archetype")
    eng = sp.engine(otypes=REST)
    semantics(sp, eng)
    R.eng = eng
    h, hi, hv = m.entity("h")
    for y, k in component_set(sp, eng, m, sp.state(m.base() + R.base() + m.issued(hi, hv)), h):
        sp.entries[sp.cur]["paths"] += 1

        def chk(z):
            live = band(m.alive(hi), eq(m.ver(hi), hv), R.HB(hi))
            if k is None:
                sp.require(z, neg(live), "C06-observe", "nothing is reported for a live entity with components")
            else:
                sp.require(z, live, "C06-observe", "a component set is reported for a dead entity or one without components")
                sp.require(z, eq(k, given(m, R, hi)), "C06-observe", "the reported set is not that of the entity's page")
        sp.cases(eng, y, chk)


def initial(sp):
    """a new store has no archetypes, and all its pages are free and empty"""
    n = 0
    for l in list(sp.p.fns.values()):
        for f in l:
            if "i" not in f or not f.get("exported") or f.get("self") is None or "sig" not in f:
                continue
            t, o = sp.p.tys[f["self"]], sp.p.tys[f["sig"]["out"]]
            if (t.get("n") or "").split("::")[-1] != "Store" or o.get("n") != t.get("n"):
                continue
            if any(sp.p.tys[a["t"]].get("k") == "ref" for a in f["sig"]["in"]):
                continue
            n += 1
            one(sp, f)
    if not n:
        raise Missing("a constructor of Store")


def one(sp, f):
    m, R = start(sp)
    sp.axioms = []
    sp.entry(f["n"])
    eng = sp.engine(otypes=REST)
    semantics(sp, eng)
    w, w2 = mk("init", "any.i"), mk("init", "any.j")
    for x, ret in sp.call(eng, sp.state(), f["i"], [mk("init", f"a{i}") for i in range(len(f["sig"]["in"]))]):
        if x.kind != "return":
            continue
        sp.entries[sp.cur]["paths"] += 1
        x.mem = dict(x.mem)
        x.mem[m.root] = ret

        def req(st, c, what):
            sp.require(st, c, "C06-new", what)

        def none(st):
            A = After(sp, eng, m, R, st)
            for t in (A.R.A, A.R.L, A.R.AP, A.R.FA):
                req(st, eq(seqlen(t), ZERO), "a new store has archetypes")
            req(st, eq(seqlen(A.R.P), seqlen(A.R.PA)), "a new store's page tables have different lengths")
            req(st, eq(seqlen(A.R.P), seqlen(A.R.FP)), "not every page of a new store is free")

        def dead(st):
            A = After(sp, eng, m, R, st)
            st.assume(ge0(w), lt(w, A.m.cap))
            req(st, neg(A.alive(w)), "a new store has live entities")

        def pages(st):
            A = After(sp, eng, m, R, st)
            st.assume(ge0(w), lt(w, seqlen(A.R.P)))
            req(st, eq(seqlen(A.ids(w)), ZERO), "a page of a new store holds entities")
            n = seqlen(A.R.FP)
            up = eq(A.at(A.R.FP, w), w)
            req(st, up if st.known(up) is True else eq(A.at(A.R.FP, sub(sub(n, ONE), w)), w), "a page of a new store is not free, or twice")
        for g in (none, dead, pages):
            sp.cases(eng, x.copy(), g)


FIELDS_ = [("Store.archetypes_container", "component storage"), ("Store.entity_to_page", "entity to page"),
           ("Store.entity_to_index_in_page", "entity to slot"), ("Store.entity_has_archetype_bit_vec", "has-components")]
OPS = ("create_entity", "destroy_entity", "create_entity_with_archetype", "remove_components", "add_components")


def run(sp):
    # equal means the same set, and a copy is the same set
    sp.parallel([(c21.tests, sp), (c21.clone, sp)])
    sp.guard(before, sp)
    sp.guard(initial, sp)
    for name in OPS:
        sp.guard(operation, sp, name, preserve)
    frames.frame(sp, "C06-frame", FIELDS_, OPS + ("drop",))
