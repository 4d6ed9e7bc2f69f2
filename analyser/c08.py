"""C08: tags are independent per-entity sets.

has_tag is composed with every operation that can change what it reports: for an
arbitrary live handle h and an arbitrary tag type (the operation's own, or any other),
has_tag before and after every path of the operation are compared with the required
set semantics, and the facts assumed of the tag tables are shown preserved.
"""
from spec import *
from store import StoreModel, Tags, alivebits

ASSUMPTIONS = ["debug assertions are on", "distinct per-tag tables are distinct buffers (C18)", "handles are used with the store that issued them"]
FLOORS = {"entries": 10, "C08-has": 60, "C08-inv": 150, "C08-inv-live": 150, "C08-frame": 40}


def split(sp, eng, st, unit, args, tys):
    """(state, bool) for every way a bool-returning observer can end"""
    out = []
    for x, r in sp.call(eng, st, unit, args, tys=tys):
        if x.kind != "return":
            out.append((x, None))
            continue
        for v in (True, False):
            y = x.copy()
            try:
                y.assume(r if v else neg(r))
                sp.saturate(y)
            except Contradiction:
                continue
            out.append((y, v))
    return out


def setup(sp):
    m = StoreModel(sp)
    t = Tags(sp, m)
    sp.axioms = m.axioms() + t.axioms()
    return m, t


def one(sp, name, unit, kind, ntys):
    m, t = setup(sp)
    has = sp.unit("Store", "has_tag")
    h, hi, hv = m.entity("h")
    e, ei, ev = m.entity("e")
    args = [m.ref, e] if kind not in ("create", "createwith") else [m.ref]
    if kind == "createwith":
        args.append(mk("ref", ("P", "archetype"), ()))
        kind = "create"
    for who in (("same", "other") if kind != "create" else ("other",)):
        for tag in (("T", "U") if ntys else ("U",)):
            sp.entry(f"{name} ({who} entity, {'the same' if tag == 'T' else 'any other'} tag)")
            eng = sp.engine(otypes=("ArchetypesContainer", "OrderGroupContainer"))
            eng.sorted.add(t.ids)
            facts = m.base() + t.base() + m.issued(hi, hv) + [m.alive(hi), eq(m.ver(hi), hv)]
            obs = h
            if kind != "create":
                facts += m.issued(ei, ev) + [m.alive(ei), eq(m.ver(ei), ev)]
                if who == "same":
                    obs = e
                    facts += [eq(hi, ei), eq(hv, ev)]
                else:
                    facts.append(neg(eq(hi, ei)))
            if tag == "U" and ntys:
                facts.append(neg(eq(mk("typeid", "T"), mk("typeid", "U"))))
            st = sp.state()
            for b in facts:
                st.assume(b)
            for s1, pre in split(sp, eng, st, has, [m.ref, obs], [tag]):
                for s2, ret in sp.call(eng, s1, unit, args, tys=["T"] if ntys else None):
                    if s2.kind != "return":
                        sp.violate("C08-path", f"{s2.kind}: {s2.why}", s2)
                        continue

                    def chk(s, ret=ret, pre=pre, tag=tag, who=who):
                        want = pre
                        if kind == "destroy" and who == "same":
                            want = False
                        elif tag == "T" and who == "same":
                            want = kind == "add"
                        for s3, post in split(sp, eng, s, has, [m.ref, obs], [tag]):
                            sp.require(s3, B(post is want), "C08-has", f"has_tag reports {post} afterwards, not {want}")
                        if kind == "create" and ret is not None:
                            for s3, post in split(sp, eng, s, has, [m.ref, ret], [tag]):
                                sp.require(s3, B(post is False), "C08-new", f"has_tag reports {post} for a new entity")
                    sp.cases(eng, s2, chk)
                    invariants(sp, m, t, eng, s2)


def invariants(sp, m, t, eng, s):
    p = m.post(s)
    q = Tags(sp, m, p.s)
    q.ids, q.vecs, q.cap = s.norm(q.ids), s.norm(q.vecs), s.norm(q.cap)
    i, j = mk("init", "any.i"), mk("init", "any.j")
    from models import is_sorted

    def shape(x):
        sp.require(x, eq(seqlen(q.ids), seqlen(q.vecs)), "C08-inv", "there are not as many tables as tag types")
        sp.require(x, eq(q.cap, p.cap), "C08-inv", "the capacity noted for tag tables is not the store's")
        sp.require(x, B(is_sorted(eng, x, x.norm(q.ids))), "C08-inv", f"tag types are not kept in the order lookups rely on: {str(show(q.ids))[:200]}")

    def live(x):
        x.assume(ge0(i), lt(i, seqlen(q.vecs)), ge0(j), lt(j, alivebits(p.cap)))
        v = x.norm(eng.at(x, q.vecs, i))
        b, o = (v.a[0], v.a[1]) if v.op == "ptr" else (v, ZERO)
        on = eng.bitload(x, b, add(j, scale(o, 8)))
        v = x.norm(p.alivep)
        b, o = (v.a[0], v.a[1]) if v.op == "ptr" else (v, ZERO)
        al = eng.bitload(x, b, add(j, scale(o, 8)))
        sp.require(x, bor(neg(on), al), "C08-inv-live", "a tag bit is on for an id that is not alive")

    for f in (shape, live):
        sp.cases(eng, s.copy(), f)


def new(sp):
    """a new store has no tags at all"""
    m, t = setup(sp)
    for ctor in ("new", "with_capacity"):
        sp.entry(f"Store::{ctor}")
        u = sp.fn("Store", ctor)
        eng = sp.engine(otypes=("ArchetypesContainer", "OrderGroupContainer"))
        st = sp.state()
        n = mk("init", "capacity")
        args = [n] if u["sig"]["in"] else []
        for s, r in sp.call(eng, st, u["i"], args):
            if s.kind != "return":
                continue
            s.mem[m.root] = r
            invariants(sp, m, t, eng, s)


def frame(sp):
    """every other operation on a store leaves the tag tables alone"""
    import frames
    frames.frame(sp, "C08-frame", [("Store.tag_container", "tag")],
                 skip=("add_tag", "remove_tag", "destroy_entity", "create_entity", "create_entity_with_archetype"))


def run(sp):
    sp.guard(lambda: one(sp, "Store::add_tag", sp.unit("Store", "add_tag"), "add", 1))
    sp.guard(lambda: one(sp, "Store::remove_tag", sp.unit("Store", "remove_tag"), "remove", 1))
    sp.guard(lambda: one(sp, "Store::destroy_entity", sp.unit("Store", "destroy_entity"), "destroy", 0))
    sp.guard(lambda: one(sp, "Store::create_entity", sp.unit("Store", "create_entity"), "create", 0))
    sp.guard(lambda: one(sp, "Store::create_entity_with_archetype", sp.unit("Store", "create_entity_with_archetype"), "createwith", 0))
    frame(sp)
    sp.guard(new, sp)
