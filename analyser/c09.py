"""C09: order groups are consistent doubly linked lists.

The four observers (next, previous, first, last) of an arbitrary live handle and an
arbitrary group (the operation's own, or any other) are composed with every operation
that touches order groups, and compared with what inserting into or removing from a
sequence does to them. The list facts assumed of an arbitrary store are shown
preserved by every path.
"""
from spec import *
from store import StoreModel, Orders, NULL

ASSUMPTIONS = ["debug assertions are on", "distinct link tables are distinct buffers (C18)", "fewer than 2^32-1 entities",
               "handles are used with the store that issued them"]
FLOORS = {"entries": 14, "C09-next": 120, "C09-prev": 120, "C09-ends": 120, "C09-reject": 20, "C09-inv": 1000, "C09-frame": 30}
ADD = ("last", "after", "before")
OT = ("ArchetypesContainer", "TagContainer")


def opt(r):
    """None, or the id of the entity in an Option<Entity>"""
    if r.op == "S" and r.a[1] == "None":
        return None
    if r.op == "S" and r.a[1] == "Some":
        return getf(getf(r, "0"), "id")
    raise Limit(f"observer result {str(show(r))[:200]}")


def observe(sp, eng, st, m, what, u, tag):
    """(state, {name: id or None}) for the observers asked for"""
    todo = [(st, {})]
    for key, name, h in what:
        nxt = []
        for s, d in todo:
            args = [m.ref] + ([h] if h is not None else [])
            for x, r in sp.call(eng, s, u[name], args, tys=[tag]):
                if x.kind != "return":
                    sp.cases(eng, x, lambda y: sp.violate("C09-observe", f"{name} does not return: {x.kind} {x.why}", y))
                    continue
                try:
                    sp.saturate(x)
                except Contradiction:
                    continue
                r = x.norm(r)
                i = opt(r)
                if i is not None:
                    sp.require(x, eq(getf(getf(r, "0"), "version"), verof(eng, x, sp, m, i)), "C09-handle",
                               f"{name} returns a handle that is not the entity's current one")
                nxt.append((x, dict(d, **{key: i})))
        todo = nxt
    return todo


def verof(eng, st, sp, m, i):
    p = m.post(st)
    b, o = (p.verp.a[0], p.verp.a[1]) if p.verp.op == "ptr" else (p.verp, ZERO)
    return eng.load(st, b, add(o, scale(i, 4)))


def setup(sp):
    m = StoreModel(sp)
    o = Orders(sp, m)
    sp.axioms = m.axioms() + o.axioms()
    u = {n: sp.unit("Store", n) for n in ("get_next_entity_ordered_by", "get_previous_entity_ordered_by",
                                          "get_first_entity_ordered_by", "get_last_entity_ordered_by")}
    return m, o, u


NX, PV, FI, LA = "get_next_entity_ordered_by", "get_previous_entity_ordered_by", "get_first_entity_ordered_by", "get_last_entity_ordered_by"


def same(st, a, b):
    """two optional ids are equal (decided, forking where needed)"""
    if a is None or b is None:
        return a is b
    return st.decide(eq(a, b))


def sameb(a, b):
    if a is None or b is None:
        return B(a is b)
    return eq(a, b)


def insert(st, d, e, p, n, x, view):
    """observations (of x) after e is put between p and n"""
    if view == "next":
        return {"next": n if st.decide(eq(x, e)) else (e if same(st, p, x) else d["next"])}
    if view == "prev":
        return {"prev": p if st.decide(eq(x, e)) else (e if same(st, n, x) else d["prev"])}
    return {"first": e if p is None else d["first"], "last": e if n is None else d["last"]}


def remove(st, d, e, p, n, x, view):
    if view == "next":
        return {"next": None if st.decide(eq(x, e)) else (n if same(st, p, x) else d["next"])}
    if view == "prev":
        return {"prev": None if st.decide(eq(x, e)) else (p if same(st, n, x) else d["prev"])}
    return {"first": n if same(st, d["first"], e) else d["first"], "last": p if same(st, d["last"], e) else d["last"]}


def member(st, d, i, who):
    return d["prev_" + who] is not None or same(st, d["first"], i)


VIEWS = {"next": [("next", NX, "h")], "prev": [("prev", PV, "h")], "ends": [("first", FI, None), ("last", LA, None)], "reject": [], "state": []}
NEED = {
    ("last", "next"): ["last"], ("last", "prev"): ["last"], ("last", "ends"): [], ("last", "reject"): ["prev_e", "first"],
    ("after", "next"): ["next_a"], ("after", "prev"): ["next_a"], ("after", "ends"): ["next_a"],
    ("after", "reject"): ["prev_e", "first", "prev_a"],
    ("before", "next"): ["prev_a"], ("before", "prev"): ["prev_a"], ("before", "ends"): ["prev_a"],
    ("before", "reject"): ["prev_e", "first", "prev_a"],
    ("remove", "next"): ["next_e", "prev_e"], ("remove", "prev"): ["next_e", "prev_e"], ("remove", "ends"): ["next_e", "prev_e"],
    ("destroy", "next"): ["next_e", "prev_e"], ("destroy", "prev"): ["next_e", "prev_e"], ("destroy", "ends"): ["next_e", "prev_e"],
}


def splits(st, cs):
    out = []
    for c in cs:
        y = st.copy()
        try:
            for b in c:
                y.assume(b)
            out.append(y)
        except Contradiction:
            pass
    return out


def one(sp, name, fn, kind, tag, view):
    m, o, u = setup(sp)
    unit = sp.unit("Store", fn)
    h, hi, hv = m.entity("h")
    e, ei, ev = m.entity("e")
    a, ai, av = m.entity("a")
    own = kind in ADD + ("remove",)
    who = {"h": h, "e": e, "a": a}
    sp.entry(name + (f" ({'its own' if tag == 'T' else 'any other'} group)" if own else ""))
    eng = sp.engine(otypes=OT, budget=400)
    eng.sorted.add(o.ids)
    facts = m.base() + o.base()
    if view in ("next", "prev"):
        facts += m.issued(hi, hv) + [m.alive(hi), eq(m.ver(hi), hv)]
    args = [m.ref]
    ident = []
    if kind not in ("create", "createwith"):
        facts += m.issued(ei, ev) + [m.alive(ei), eq(m.ver(ei), ev)]
        args.append(e)
        ident.append((ei, ev))
    if kind in ("after", "before"):
        facts += m.issued(ai, av) + [m.alive(ai), eq(m.ver(ai), av)]
        args.append(a)
        ident.append((ai, av))
    if kind == "createwith":
        args.append(mk("ref", ("P", "archetype"), ()))
    if own and tag == "U":
        facts.append(neg(eq(mk("typeid", "T"), mk("typeid", "U"))))
    what = [(k, f, who.get(w)) for k, f, w in VIEWS[view]]
    have = {k for k, _, _ in what}
    if not own or tag == "T":
        for k in NEED.get((kind, view), ()):
            if k not in have:
                q, _, w = k.partition("_")
                what.append((k, {"next": NX, "prev": PV, "first": FI, "last": LA}[q], who.get(w)))
    st = sp.state()
    for b in facts:
        st.assume(b)
    starts = [st]
    if view in ("next", "prev"):
        for i, v in ident:      # the observed handle may be one of the arguments
            starts = [y for s in starts for y in splits(s, ([eq(hi, i), eq(hv, v)], [neg(eq(hi, i))]))]
    if len(ident) == 2:
        starts = [y for s in starts for y in splits(s, ([eq(ai, ei), eq(av, ev)], [neg(eq(ai, ei))]))]
    for s0 in starts:
        for s1, d in observe(sp, eng, s0, m, what, u, tag):
            for s2, ret in sp.call(eng, s1, unit, args, tys=["T"] if own else None):
                if view == "state":
                    if s2.kind == "return":
                        invariants(sp, m, o, eng, s2)
                    continue
                if view == "reject":
                    sp.cases(eng, s2, lambda s, d=d, k=s2.kind: reject(sp, s, d, kind, ei, ai, k))
                    continue
                if s2.kind == "panic" and kind in ADD:
                    continue    # view "reject" decides when
                sp.cases(eng, s2, lambda s, ret=ret, d=d, k=s2.kind: after(sp, m, o, u, eng, s, ret, d, kind, tag, own, h, hi, ei, ai, k, view))


def reject(sp, s, d, kind, ei, ai, how):
    bad = member(s, d, ei, "e")
    if kind in ("after", "before"):
        bad = bad or not member(s, d, ai, "a")
    if bad:
        sp.require(s, B(how == "panic"), "C09-reject", "the change is not rejected though the entity is in the group already or the anchor is not in it")
    else:
        sp.require(s, B(how == "return"), "C09-reject", f"a valid change is rejected ({s.kind} {s.why})")


def after(sp, m, o, u, eng, s, ret, d, kind, tag, own, h, hi, ei, ai, how, view):
    if how != "return":
        sp.require(s, FALSE, "C09-panic", f"the operation ends by {how} on a valid request ({s.why})")
        return
    d = dict({"next": None, "prev": None, "first": None, "last": None}, **d)
    want = d
    if tag == "T" and own and kind in ADD:
        if kind == "last":
            p, n = (d["last"] if view != "ends" else d["last"]), None
        elif kind == "after":
            p, n = ai, d["next_a"]
        else:
            p, n = d["prev_a"], ai
        want = insert(s, d, ei, p, n, hi, view)
    elif tag == "T" and kind == "remove" or kind == "destroy":
        want = remove(s, d, ei, d["prev_e"], d["next_e"], hi, view)
    gone = kind == "destroy" and view != "ends" and s.decide(eq(hi, ei))
    what = [] if gone else [(k, f, h if w else None) for k, f, w in VIEWS[view]]
    for s3, g in observe(sp, eng, s, m, what, u, tag):
        def chk(x):
            for k, v in g.items():
                sp.require(x, sameb(v, want[k]), {"next": "C09-next", "prev": "C09-prev"}.get(k, "C09-ends"),
                           f"{k} is {show(v)}, not {show(want[k])}")
        sp.cases(eng, s3, chk)
    if view == "ends" and kind in ("create", "createwith") and ret is not None:
        for s3, g in observe(sp, eng, s, m, [("next", NX, ret), ("prev", PV, ret), ("first", FI, None), ("last", LA, None)], u, tag):
            ri = getf(ret, "id")

            def chk(x):
                sp.require(x, B(g["next"] is None and g["prev"] is None), "C09-new", "a new entity has order links")
                sp.require(x, neg(sameb(g["first"], ri)), "C09-new", "a new entity is the first of a group")
                sp.require(x, neg(sameb(g["last"], ri)), "C09-new", "a new entity is the last of a group")
            sp.cases(eng, s3, chk)


def invariants(sp, m, o, eng, s):
    from models import is_sorted
    p = m.post(s)
    q = Orders(sp, m, p.s).normed(s)
    g, x = mk("init", "any.g"), mk("init", "any.x")

    def ld(st, seq, i):
        v = st.norm(eng.at(st, seq, g))
        b, off = (v.a[0], v.a[1]) if v.op == "ptr" else (v, ZERO)
        return st.norm(eng.load(st, b, add(off, scale(i, 4))))

    def alive(st, i):
        v = st.norm(p.alivep)
        b, off = (v.a[0], v.a[1]) if v.op == "ptr" else (v, ZERO)
        return eng.bitload(st, b, add(i, scale(off, 8)))

    def shape(st):
        n = seqlen(q.ids)
        for w in (q.fwd, q.bwd, q.head, q.tail):
            sp.require(st, eq(n, seqlen(w)), "C09-inv", "a group lacks one of its tables")
        sp.require(st, eq(q.cap, p.cap), "C09-inv", "the capacity noted for order tables is not the store's")
        sp.require(st, B(is_sorted(eng, st, st.norm(q.ids))), "C09-inv", "group types are not kept in the order lookups rely on")

    def anyg(st):
        st.assume(ge0(g), lt(g, seqlen(q.ids)))

    def ends(st):
        anyg(st)
        h, l = st.norm(eng.at(st, q.head, g)), st.norm(eng.at(st, q.tail, g))
        hn, ln = st.decide(eq(h, NULL)), st.decide(eq(l, NULL))
        sp.require(st, B(hn == ln), "C09-inv", "a group has a first but no last member, or the reverse")
        if not hn:
            sp.require(st, eq(ld(st, q.bwd, h), NULL), "C09-inv", "the first member has a predecessor")
            sp.require(st, alive(st, h), "C09-inv", "the first member is dead")
            sp.require(st, lt(h, p.cap), "C09-inv", "the first member is no id")
        if not ln:
            sp.require(st, eq(ld(st, q.fwd, l), NULL), "C09-inv", "the last member has a successor")
            sp.require(st, alive(st, l), "C09-inv", "the last member is dead")
            sp.require(st, lt(l, p.cap), "C09-inv", "the last member is no id")

    def links(st):
        anyg(st)
        st.assume(ge0(x), lt(x, p.cap), lt(x, NULL))
        f, b = ld(st, q.fwd, x), ld(st, q.bwd, x)
        h, l = st.norm(eng.at(st, q.head, g)), st.norm(eng.at(st, q.tail, g))
        fn, bn = st.decide(eq(f, NULL)), st.decide(eq(b, NULL))
        if not fn:
            sp.require(st, lt(f, p.cap), "C09-inv", "a successor is no id")
            sp.require(st, eq(ld(st, q.bwd, f), x), "C09-inv", "previous is not the inverse of next")
            sp.require(st, alive(st, x), "C09-inv", "a dead id has a successor")
            sp.require(st, alive(st, f), "C09-inv", "a successor is dead")
            sp.require(st, neg(eq(l, x)), "C09-inv", "the last member has a successor")
            if bn:
                sp.require(st, eq(h, x), "C09-inv", "a member without predecessor is not the first")
        if not bn:
            sp.require(st, lt(b, p.cap), "C09-inv", "a predecessor is no id")
            sp.require(st, eq(ld(st, q.fwd, b), x), "C09-inv", "next is not the inverse of previous")
            sp.require(st, alive(st, x), "C09-inv", "a dead id has a predecessor")
            if fn:
                sp.require(st, eq(l, x), "C09-inv", "a member without successor is not the last")
        if fn and bn:
            sp.require(st, B(st.decide(eq(h, x)) == st.decide(eq(l, x))), "C09-inv", "an entity without links is first but not last, or the reverse")

    for f in (shape, ends, links):
        sp.cases(eng, s.copy(), f)


def new(sp):
    m, o, u = setup(sp)
    for ctor in ("new", "with_capacity"):
        sp.entry(f"Store::{ctor}")
        f = sp.fn("Store", ctor)
        eng = sp.engine(otypes=OT)
        st = sp.state([lt(mk("init", "capacity"), NULL)])
        for s, r in sp.call(eng, st, f["i"], [mk("init", "capacity")] if f["sig"]["in"] else []):
            if s.kind == "return":
                s.mem[m.root] = r
                invariants(sp, m, o, eng, s)


MUT = [("add_entity_order_by", "last"), ("add_entity_next_to_order_by", "after"), ("add_entity_previous_to_order_by", "before"),
       ("remove_entity_order_by", "remove"), ("destroy_entity", "destroy"), ("create_entity", "create"), ("create_entity_with_archetype", "createwith")]


def run(sp):
    jobs = []
    for fn, kind in MUT:
        for tag in (("T", "U") if kind in ADD + ("remove",) else ("U",)):
            for view in VIEWS:
                if view == "reject" and (kind not in ADD or tag != "T") or view == "state" and tag == "U" and kind in ADD + ("remove",):
                    continue
                jobs.append((one, sp, "Store::" + fn, fn, kind, tag, view))
    jobs.append((new, sp))
    import frames
    jobs.append((frames.frame, sp, "C09-frame", [("Store.order_group_container", "order")], tuple(n for n, _ in MUT)))
    sp.parallel(jobs)
