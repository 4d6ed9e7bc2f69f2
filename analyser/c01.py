"""C01: entity handle lifecycle."""
from terms import *
from spec import *
from store import StoreModel, alivebits
import frames

REST = ("TagContainer", "OrderGroupContainer", "ArchetypesContainer", "ArchetypeBuilder", "Archetype", "ArchetypeLayout",
        "ArchetypeDataPage", "ArchetypeDataPageView", "ArchetypesUnion")


def alive_on(sp, eng, st, m, unit, e):
    """splits st by what is_alive reports for e; yields (state, bool)"""
    out = []
    for x, r in sp.call(eng, st, unit, [m.ref, e]):
        if x.kind != "return":
            out.append((x, None))
            continue
        d = x.known(r)
        if d is not None:
            out.append((x, d))
            continue
        for v in (True, False):
            y = x.copy()
            try:
                y.assume(r if v else neg(r))
            except Contradiction:
                continue
            out.append((y, v))
    return out


def history(sp, adt, create, creates, destroys, others):
    m = StoreModel(sp, "s", adt)
    sp.axioms = m.axioms()
    ua = sp.unit("EntitiesContainer", "is_alive") if adt != "Store" else sp.unit("Store", "is_alive")
    E = sp.adt("Entity")["n"]
    ref = m.ref if adt == "Store" else mk("ref", m.root, (("f", sp.f(adt, "entities_container")),))

    def observe(eng, st, e):
        mm = type("M", (), {"ref": ref})()
        return alive_on(sp, eng, st, mm, ua, e)

    for name, unit, mkargs, kind in creates + destroys + others:
        sp.entry(name)
        eng = sp.engine(otypes=REST)
        h, hi, hv = m.entity("h")          # any handle ever issued
        args, own = mkargs(m, eng)
        facts = m.base() + m.issued(hi, hv)
        st0 = sp.state()
        for b in facts:
            st0.assume(b)
        if own is not None:
            for b in m.issued(own[1], own[2]):
                st0.assume(b)
        for s1, pre in observe(eng, st0, h):
            if pre is None:
                continue
            if own is not None and s1.known(eq(own[1], hi)) is None:
                splits = []
                for c in ([eq(own[1], hi), eq(own[2], hv)], [eq(own[1], hi), neg(eq(own[2], hv))], [neg(eq(own[1], hi))]):
                    y = s1.copy()
                    try:
                        for b in c:
                            y.assume(b)
                    except Contradiction:
                        continue
                    splits.append((y, c))
            else:
                splits = [(s1, None)]
            for s1, how in splits:
                same = how is not None and len(how) == 2 and how[1].op != "not"
                for s2, ret in sp.call(eng, s1, unit, args):
                    if s2.kind not in ("return", "panic"):
                        sp.cases(eng, s2, lambda s: sp.violate("C01-path", f"{s.kind}: {s.why}", s))
                        continue
                    new = None
                    if kind == "create" and s2.kind == "return":
                        new = ret
                    sp.cases(eng, s2, lambda s: after(sp, m, eng, s, ret, kind, pre, same, h, hi, hv, observe))


def after(sp, m, eng, s, ret, kind, pre, same, h, hi, hv, observe):
    res = observe(eng, s, h)
    for s3, post in res:
        def chk(s):
            if s.kind == "panic" and post is None:
                # looking at an issued handle must not panic
                sp.violate("C01-observe", "is_alive panics for an issued handle", s)
                return
            if kind == "create" and ret is not None:
                ri, rv = getf(ret, "id"), getf(ret, "version")
                isnew = band(eq(ri, hi), eq(rv, hv))
                if post and not pre:
                    sp.require(s, FALSE, "C01-revive", "a dead handle is alive after creating an entity")
                if pre and not post:
                    sp.require(s, FALSE, "C01-kill", "creating an entity changes another handle's liveness")
                if pre:
                    sp.require(s, neg(eq(ri, hi)), "C01-unique", "a new handle shares its id with a live one")
                sp.require(s, neg(isnew), "C01-fresh", "a handle issued before is issued again")
            elif kind == "destroy" and ret is not None:
                if same:
                    sp.require(s, B(not post), "C01-destroy", "the destroyed handle is still alive")
                else:
                    sp.require(s, B(post == pre), "C01-frame", "destroying an entity changes another handle's liveness")
            else:
                sp.require(s, B(post == pre), "C01-frame", "an operation changes a handle's liveness")
        sp.cases(eng, s3, chk)
    if s.kind != "return":
        return
    if kind == "create":
        E = sp.adt("Entity")["n"]
        for s3, post in observe(eng, s, ret):
            sp.cases(eng, s3, lambda x: sp.require(x, B(post is True), "C01-born", "the returned handle is not alive"))
    # representation facts are preserved
    invariants(sp, m, eng, s, ret, kind, hi, hv)


def invariants(sp, m, eng, s, ret, kind, hi, hv):
    p = m.post(s)
    i, j = mk("init", "any.i"), mk("init", "any.j")

    def bitp(x, k):
        return eng.bitload(x, p.alivep_base(x), k)

    def base(x, v):
        v = x.norm(v)
        return (v.a[0], v.a[1]) if v.op == "ptr" else (v, ZERO)

    def gapinv(x):
        x.assume(lt(i, seqlen(p.gap)))
        g = eng.at(x, p.gap, i)
        b, o = base(x, p.alivep)
        al = eng.bitload(x, b, add(g, scale(o, 8)))
        sp.require(x, neg(al), "C01-inv-gap", "a recycled id is marked alive")
        sp.require(x, lt(g, p.next), "C01-inv-gap", "a recycled id lies beyond the high-water mark")

    def gapdist(x):
        x.assume(lt(i, seqlen(p.gap)), lt(j, i))
        a, b = eng.at(x, p.gap, i), eng.at(x, p.gap, j)
        sp.require(x, neg(eq(a, b)), "C01-inv-distinct", "an id is queued for reuse twice")

    def hwm(x):
        x.assume(le(p.next, i), lt(i, alivebits(p.cap)))
        b, o = base(x, p.alivep)
        sp.require(x, neg(eng.bitload(x, b, add(i, scale(o, 8)))), "C01-inv-mark", "an id beyond the high-water mark is marked alive")

    def caps(x):
        sp.require(x, le(p.next, p.cap), "C01-inv-cap", "the high-water mark passes the capacity")
        sp.require(x, le(ONE, p.cap), "C01-inv-cap", "the capacity drops to zero")

    def issued(x):
        b, o = base(x, p.verp)
        v = eng.load(x, b, add(o, scale(hi, 4)))
        sp.require(x, le(hv, v), "C01-inv-version", "an issued version exceeds the recorded one")
        sp.require(x, lt(hi, p.cap), "C01-inv-version", "an issued id lies beyond the capacity")
        if kind == "create" and ret is not None:
            ri, rv = getf(ret, "id"), getf(ret, "version")
            v = eng.load(x, b, add(o, scale(ri, 4)))
            sp.require(x, le(rv, v), "C01-inv-version", "a new handle's version exceeds the recorded one")
            sp.require(x, le(ONE, rv), "C01-inv-version", "a new handle has version zero")
            sp.require(x, lt(ri, p.cap), "C01-inv-version", "a new id lies beyond the capacity")

    def written(x):
        x.assume(ge0(i), lt(i, p.cap))
        b, o = base(x, p.verp)
        v = x.norm(eng.load(x, b, add(o, scale(i, 4))))
        sp.require(x, B(not any(a.op == "uninit" for a in atoms_in(v))), "C01-inv-version", "versions of ids in the capacity are never written")

    for f in (gapinv, gapdist, hwm, caps, written) + ((issued,) if hi is not None else ()):
        def g(x, f=f):
            f(x)
        sp.cases(eng, s.copy(), g)


def new(sp):
    """a new store has no live entities and nothing to recycle"""
    m = StoreModel(sp)
    sp.axioms = []
    for ctor in ("new", "with_capacity"):
        sp.entry(f"Store::{ctor}")
        f = sp.fn("Store", ctor)
        eng = sp.engine(otypes=REST)
        for s, r in sp.call(eng, sp.state(), f["i"], [mk("init", "capacity")] if f["sig"]["in"] else []):
            if s.kind == "return":
                s.mem = dict(s.mem)
                s.mem[m.root] = r
                invariants(sp, m, eng, s, None, None, None, None)
                p = m.post(s)
                sp.require(s, eq(p.next, ZERO), "C01-new", "ids of a new store count as issued")


def run(sp):
    def noargs(m, eng):
        return [m.ref], None

    def ent(m, eng):
        e, i, v = m.entity("e")
        return [m.ref, e], (e, i, v)

    def witharch(m, eng):
        return [m.ref, mk("ref", ("P", "archetype"), ())], None

    def store():
        history(sp, "Store", None,
                [("Store::create_entity", sp.unit("Store", "create_entity"), noargs, "create"),
                 ("Store::create_entity_with_archetype", sp.unit("Store", "create_entity_with_archetype"), witharch, "create")],
                [("Store::destroy_entity", sp.unit("Store", "destroy_entity"), ent, "destroy")], [])
    sp.guard(new, sp)
    sp.guard(store)
    frames.frame(sp, "C01-frame", [("Store.entities_container", "entity")], ("create_entity", "create_entity_with_archetype", "destroy_entity", "drop"))
