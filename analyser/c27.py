"""C27: freed storage is reused.

Entities: every id below the high-water mark that is not alive is queued for reuse.
This is shown to be preserved by every operation that issues or frees ids (an
arbitrary id of the state each path ends in), and on every path on which the
capacity changes an arbitrary id below the old capacity is shown to be alive.

Pages: on every path of the operations that place an entity, the slot given is in a
page the component set had, or an arbitrary page the set had is full; pages are
added only when none is free, archetypes only when none is free. (That no emptied
page or archetype is lost to the free lists is C06.)
"""
from spec import *
from store import *
from registry import *
import c06
import frames

ASSUMPTIONS = ["debug assertions are on", "archetype functions are set operations (C21)",
               "handles are used with the store that issued them"]
FLOORS = {"entries": 9, "C27-queued": 10, "C27-capacity": 4, "C27-page": 20, "C27-room": 20}
NUMBERS = (("Store", "create_entity", "store"), ("Store", "create_entity_with_archetype", "store"), ("Store", "destroy_entity", "store"),
           ("ResourceStore", "create", "resources"), ("ResourceStore", "release", "resources"))
PLACING = ("create_entity_with_archetype", "add_components", "remove_components")


def queue(m):
    """ids below the mark that are not alive are in the queue"""
    def ax(st, atoms):
        for t in atoms:
            if t.op == "bit" and t.a[0] is m.alivep and st.known(t) is False and st.known(lt(t.a[1], m.next)) is True \
                    and st.known(ge0(t.a[1])) is not False:
                st.assume(mk("pred", "queued", t.a[1]))
            if t.op == "pred" and t.a[0] == "queued" and st.known(t) is True:
                g = mk("qpos", t.a[1])
                st.assume(ge0(g), lt(g, seqlen(m.gap)), eq(mk("at", m.gap, g), t.a[1]))
            if t.op == "at" and t.a[0] is m.gap and st.known(lt(t.a[1], seqlen(m.gap))) is True:
                st.assume(mk("pred", "queued", t), eq(mk("qpos", t), t.a[1]))
    return [ax]


def queued(sp, eng, m, x):
    """every dead id below the mark is in the queue the operation leaves"""
    p = m.post(x)
    R = Registry.__new__(Registry)
    R.eng = eng
    j = mk("init", "any.id")

    def base(s):
        if s is not m.gap:
            raise Limit(f"a queue of unknown origin: {str(show(s))[:200]}")
        return mk("pred", "queued", j)

    def chk(st):
        st.assume(ge0(j), lt(j, p.next))
        st.decide(lt(j, m.next))
        st.assume(neg(bitof(eng, st, p.alivep, j)))
        sp.saturate(st, [mk("bit", m.alivep, j)])
        sp.require(st, R.member(st, p.gap, j, base), "C27-queued", "an id that is free is not queued for reuse")
    sp.cases(eng, x.copy(), chk)


def capacity(sp, eng, m, x):
    p = m.post(x)
    if x.known(eq(p.cap, m.cap)) is True:
        return
    j = mk("init", "any.id")

    def chk(st):
        st.assume(neg(eq(p.cap, m.cap)), ge0(j), lt(j, m.cap))
        al = st.decide(m.alive(j))
        sp.saturate(st, [m.alive(j)])
        sp.require(st, B(al), "C27-capacity", "the capacity changes while an id below it is free")
    sp.cases(eng, x.copy(), chk)


def numbers(sp, adt, name):
    m = StoreModel(sp, "s", adt)
    sp.axioms = m.axioms() + queue(m)
    f = sp.fn(adt, name)
    sp.entry(f["n"])
    eng = sp.engine(otypes=c06.REST + ("TagContainer", "OrderGroupContainer", "ArchetypesContainer", "ArchetypeBuilder", "Archetype",
                                       "ArchetypeLayout", "ArchetypeDataPage", "ArchetypeDataPageView", "ArchetypesUnion"))
    args, facts = frames.arguments(sp, m, [sp.p.tys[a["t"]] for a in f["sig"]["in"]])
    own = [a for a in args if a.op == "S"]
    facts = facts + [le(m.next, m.cap)] + [c for a in own for c in (m.alive(getf(a, sp.f("Entity", "id"))),)]
    facts += [lt(m.cap, I(2**31))]      # ids are 32 bits
    n = 0
    for x, r in sp.call(eng, sp.state(facts), f["i"], args, tys=["T"] if adt != "Store" else None):
        if x.kind != "return":
            continue
        sp.entries[sp.cur]["paths"] += 1
        n += 1
        queued(sp, eng, m, x)
        capacity(sp, eng, m, x)
    if not n:
        raise Missing(f"a path through {name}")


def started(sp, adt):
    """a new store has no free ids below its mark"""
    n = 0
    for l in list(sp.p.fns.values()):
        for f in l:
            if "i" not in f or not f.get("exported") or f.get("self") is None or "sig" not in f:
                continue
            t, o = sp.p.tys[f["self"]], sp.p.tys[f["sig"]["out"]]
            if (t.get("n") or "").split("::")[-1] != adt or o.get("n") != t.get("n") or f["sig"]["in"] and any(
                    sp.p.tys[a["t"]].get("k") == "ref" for a in f["sig"]["in"]):
                continue
            n += 1
            m = StoreModel(sp, "s", adt)
            sp.axioms = []
            sp.entry(f["n"])
            eng = sp.engine(otypes=c06.REST + ("TagContainer", "OrderGroupContainer", "ArchetypesContainer"))
            for x, r in sp.call(eng, sp.state(), f["i"], [mk("init", f"a{i}") for i in range(len(f["sig"]["in"]))],
                                tys=["T"] if adt != "Store" else None):
                if x.kind == "return":
                    sp.entries[sp.cur]["paths"] += 1
                    x.mem = dict(x.mem)
                    x.mem[m.root] = r
                    queued(sp, eng, m, x)
    if not n:
        raise Missing("a constructor of " + adt)


def pages(sp, x, ret, m, R, eng, ent, name):
    if not c06.possible(sp, R, x):
        return
    sp.entries[sp.cur]["paths"] += 1
    nP, nA = seqlen(R.P), seqlen(R.A)

    def see(st, *cands):
        sp.saturate(st)
        instantiate(st, [(R.A, c) for c in cands] + places(R, st))
        sp.saturate(st)

    def more(st):
        """pages and archetypes are added when none is free"""
        A = c06.After(sp, eng, m, R, st)
        see(st)
        for new, old, free, rule, what in ((A.R.P, nP, R.FP, "page", "a page is added while an emptied one is free"),
                                           (A.R.A, nA, R.FA, "archetype", "an archetype is added while one is free")):
            sp.require(st, bor(eq(seqlen(new), old), eq(seqlen(free), ZERO)), "C27-" + rule, what)

    def room(st):
        """the pages the set had are full when it is given another"""
        A = c06.After(sp, eng, m, R, st)
        e = getf(ret, sp.f("Entity", "id")) if "create" in name else ent[1]
        if "create" not in name:
            st.assume(m.alive(ent[1]), eq(m.ver(ent[1]), ent[2]))
        st.assume(A.hb(e))
        p = A.ep(e)
        sp.saturate(st)
        a = A.pa(p)
        k = st.norm(keyof(A.at(A.R.A, a)))
        q = mk("init", "any.page")
        st.assume(ge0(q), lt(q, nP), R.listed(q))
        b = st.norm(R.pa(q))
        sp.saturate(st)
        kq = st.norm(keyof(mk("at", R.A, b)))
        st.assume(eq(k, kq))
        see(st, b)
        if st.known(lt(p, nP)) is not False:
            if st.decide(band(lt(p, nP), R.listed(p))):
                return
        see(st, b)
        full = le(getf(mk("at", R.P, q), R.fcap), seqlen(R.ids(q)))
        sp.saturate(st, [full])
        sp.require(st, full, "C27-room", "a component set is given another page while one of its own has room")
    for f in (more, room):
        sp.cases(eng, x.copy(), f)


def run(sp):
    for adt in ("Store", "ResourceStore"):
        sp.guard(started, sp, adt)
    for adt, name, _ in NUMBERS:
        sp.guard(numbers, sp, adt, name)
    for name in PLACING:
        sp.guard(c06.operation, sp, name, pages)
    frames.frame(sp, "C27-frame", [("Store.entities_container", "entity")], ("create_entity", "create_entity_with_archetype", "destroy_entity", "drop"))
