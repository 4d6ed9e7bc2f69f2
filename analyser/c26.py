"""C26: valid operations on live entities do not panic.

Every function users can call on a store is run on an arbitrary store that satisfies
what C01, C06, C08 and C09 show of every reachable one, with arbitrary live handles.
Each path that ends by a panic, and each check the language makes (index within bounds,
subtraction not below zero, no division by zero), has to be impossible. Functions of the
part of the store a run is not about are left out of it; each has a run of its own.
"""
from spec import *
from store import *
from registry import *
from engine import locname
import engine as engine_
import c06
import c08
import c09
import c19
import c20
import frames
import queries

ASSUMPTIONS = ["debug assertions are on", "archetype functions are set operations (C21)",
               "sums of sizes, counts and ids do not exceed 64 and 32 bits", "handles are used with the store that issued them",
               "component sets in use fit a page (C25)"]
FLOORS = {"entries": 50, "C26-ends": 300, "C26-check": 1000}


def live(m, ei, ev):
    return m.issued(ei, ev) + [m.alive(ei), eq(m.ver(ei), ev)]


def install(eng):
    eng.onassert = lambda st, c: eng.pending.append((st.copy(), c, eng.where(st)))


def judge(sp, eng, possible=None):
    """the checks the language makes, now that what loops do is known"""
    for y, c, where in eng.pending:
        def one(z):
            d = z.norm(c)
            if z.known(d) is not True:
                try:
                    sp.saturate(z, [d])
                    z.assume(neg(z.norm(d)))
                    dead = possible is not None and not possible(z)
                except Contradiction:
                    dead = True
                sp.require(z, B(dead), "C26-check", f"a check may fail: {str(show(d))[:200]}", where)
            else:
                sp.require(z, TRUE, "C26-check", "")
        sp.cases(eng, y, one)
    eng.pending = []


def ended(sp, x, possible=None):
    sp.entries[sp.cur]["paths"] += 1
    if x.kind == "return":
        sp.require(x, TRUE, "C26-ends", "")
        return
    y = x.copy()
    try:
        sp.saturate(y)
        dead = possible is not None and not possible(y)
    except Contradiction:
        dead = True
    sp.require(x, B(dead), "C26-ends", f"a valid call ends by {x.kind} ({x.why})")


def lockstep(a, b, seen=()):
    """two lists a loop builds get the same number of elements in every iteration

    Shown for all pairs met on the way together, each taken to be so at the start of
    an iteration (of its own loop, or of one within) and shown to be so at its end."""
    if a is b:
        return True
    if a.op != "phi" or b.op != "phi" or a.a[0] != b.a[0]:
        return False
    rec = engine_.LOOPS[a.a[0]]
    key = (rec.uid, a.a[1], b.a[1])
    if key in seen:
        return True
    seen = seen + (key,)

    def strip(l):
        n = 0
        while l.op == "vpush":
            n, l = n + 1, l.a[0]
        return n, l

    def even(x, y):
        x, y = strip(x), strip(y)
        if x[0] != y[0]:
            return False
        return seqlen(x[1]) is seqlen(y[1]) or lockstep(x[1], y[1], seen)
    x, y = rec.v0.get(a.a[1]), rec.v0.get(b.a[1])
    if not rec.variants or x is None or y is None or not even(x, y):
        return False
    for v in rec.variants:
        val = {locname(l): t for l, t in v["vals"].items()}
        if not even(val.get(a.a[1], a), val.get(b.a[1], b)):
            return False
    return True


def pairs(st, atoms):
    """lists built together are of one length"""
    ls = sorted({t for t in atoms if t.op == "len" and t.a[0].op == "phi"}, key=repr)
    for x in range(len(ls)):
        for y in range(x):
            if lockstep(ls[x].a[0], ls[y].a[0]):
                st.assume(eq(ls[x], ls[y]))


def roomy(R):
    """layouts in use have room for one entity"""
    nA = seqlen(R.A)

    def ax(st, atoms):
        for t in atoms:
            if t.op == "fld" and t.a[1] == R.flcap:
                l = st.norm(t.a[0])
                if l.op == "layout" or l.op == "at" and l.a[0] is R.L and st.known(lt(l.a[1], nA)) is True:
                    st.assume(le(ONE, t))
    return ax


def arguments(sp, m, ins):
    args, facts = frames.arguments(sp, m, ins)
    hs = []
    for i, t in enumerate(ins):
        if i and t.get("n") == sp.adt("Entity")["n"]:
            _, ei, ev = m.entity(f"h{i}")
            hs.append((ei, ev))
            facts += live(m, ei, ev)
    return args, facts, hs


def storage(sp, f, ins):
    """entities, pages and archetypes"""
    m, R = c06.start(sp)
    sp.entry(f["n"] + " (entities and storage)")
    eng = sp.engine(otypes=REST)
    semantics(sp, eng)
    R.eng = eng
    sp.axioms = sp.axioms + [roomy(R), pairs]
    install(eng)
    args, facts, _ = arguments(sp, m, ins)
    poss = lambda z: c06.possible(sp, R, z)
    for x, ret in sp.call(eng, sp.state(m.base() + R.base() + facts), f["i"], args):
        ended(sp, x, poss)
    judge(sp, eng, poss)


def tags(sp, f, ins):
    m, t = c08.setup(sp)
    sp.entry(f["n"] + " (tags)")
    eng = sp.engine(otypes=("ArchetypesContainer", "OrderGroupContainer"))
    eng.sorted.add(t.ids)
    install(eng)
    args, facts, _ = arguments(sp, m, ins)
    for x, ret in sp.call(eng, sp.state(m.base() + t.base() + facts), f["i"], args):
        ended(sp, x)
    judge(sp, eng)


KIND = dict(c09.MUT)
WHO = {"next": c09.NX, "prev": c09.PV, "first": c09.FI, "last": c09.LA}


def orders(sp, f, ins):
    """order groups: an entity joins a group it is not in, next to one that is in it"""
    m, o, u = c09.setup(sp)
    short = f["n"].split("::")[-1]
    kind = KIND.get(short)
    sp.entry(f["n"] + " (orders)")
    eng = sp.engine(otypes=c09.OT, budget=400)
    eng.sorted.add(o.ids)
    args, facts, hs = arguments(sp, m, ins)
    who = dict(zip("ea", [a for i, a in enumerate(args) if i]))
    need = c09.NEED.get((kind, "reject"), ())
    what = [(k, WHO[k.partition("_")[0]], who.get(k.partition("_")[2])) for k in need]
    # the entity and the anchor are taken to be two: one cannot be in the group and not in it
    extra = [neg(eq(hs[0][0], hs[1][0]))] if len(hs) == 2 else []
    for s1, d in c09.observe(sp, eng, sp.state(m.base() + o.base() + facts + extra), m, what, u, "T"):
        def valid(z, d=d):
            if not need:
                return True
            if c09.member(z, d, hs[0][0], "e"):
                return False
            return len(hs) < 2 or c09.member(z, d, hs[1][0], "a")
        install(eng)
        for x, ret in sp.call(eng, s1, f["i"], args, tys=["T"] if need else None):
            sp.cases(eng, x, lambda z: ended(sp, z) if valid(z) else None)
        judge(sp, eng, valid)
        eng.onassert = None


def query(sp, make):
    """starting a query (its steps: C10 to C14)"""
    s = make(sp)
    R, m, o = s.R, s.m, getattr(s, "o", None)
    sp.axioms = sp.axioms + [roomy(R), pairs]

    def members(st, atoms):
        """where the loop over a group's members is: at a member, or past the last (C12)"""
        for t in atoms:
            if t.op == "phi" and moves(t):
                st.assume(bor(eq(t, NULL), band(m.alive(t), lt(t, m.cap))))

    def moves(t, seen=()):
        """t takes only heads of groups and successors of what it was"""
        if t in seen:
            return True
        if t.op == "phi":
            rec = engine_.LOOPS[t.a[0]]
            new = [x for v in rec.variants for l, x in v["vals"].items() if locname(l) == t.a[1]]
            v0 = rec.v0.get(t.a[1])
            return v0 is not None and bool(new) and all(moves(x, seen + (t,)) for x in new + [v0])
        if t.op == "mem":
            return t.a[0].op == "at" and t.a[0].a[0] is o.fwd
        return t.op == "at" and t.a[0] is o.head or t is NULL
    if o is not None:
        sp.axioms = sp.axioms + [members]
    install(s.eng)
    poss = lambda z: c06.possible(sp, R, z)
    for x, ret in s.results():
        ended(sp, x, poss)
    judge(sp, s.eng, poss)


def steps(sp, make):
    """steps of an iteration begun earlier, their lengths, and the same with entities"""
    c = make(sp)
    m = StoreModel(sp)
    sp.axioms = c.axioms()

    def each(f, first=None):
        sp.entry(f["n"])
        for eng, v, st in queries.begin(sp, c, None):
            install(eng)
            todo = [st]
            if first is not None:
                todo = []
                for x, w in sp.call(eng, st, first["i"], [v]):
                    ended(sp, x)
                    if x.kind == "return":
                        x.mem[("P", "it")] = w
                        todo.append(x)
            for y in todo:
                for x, r in sp.call(eng, y, f["i"], [sref("it")]):
                    ended(sp, x)
            judge(sp, eng)
    each(sp.fn(c.adt, "next"))
    try:
        f = sp.fn(c.adt, "len")
    except Missing:
        f = None
    if f is not None:
        each(f)
    if getattr(c, "withe", None):
        each(sp.fn(c.withe, "next"), sp.fn(c.adt, "with_entities"))


def filtering(sp):
    eng, st, g, *_ = queries.source(sp)
    install(eng)
    for x, r in sp.call(eng, st, g["i"], [sref("it")]):
        ended(sp, x)
    judge(sp, eng)


def filters(sp):
    """a query filtered by a tag that an entity was given before"""
    m, t = c08.setup(sp)
    f, g = sp.fn("component::WithEntitiesIter", "filter_tag"), sp.unit("Store", "add_tag")
    sp.entry(f["n"])
    e, ei, ev = m.entity("e")
    c = queries.Components(sp)
    src = sp.f("component::WithEntitiesIter", "source_iter")
    for v, facts in c.start():
        eng = sp.engine(otypes=("ArchetypesContainer", "OrderGroupContainer"))
        eng.sorted.add(t.ids)
        w = setf(mk("init", "w"), src, v)
        st = sp.state(m.base() + t.base() + live(m, ei, ev))
        for x, _ in sp.call(eng, st, g, [m.ref, e], tys=["T"]):
            if x.kind != "return":
                continue    # add_tag has a run of its own
            install(eng)
            for y, r in sp.call(eng, x, f["i"], [w], tys=["Q", "T"]):
                ended(sp, y)
            judge(sp, eng)
            eng.onassert = None


def resources(sp, f, ins):
    m = c19.setup(sp)
    sp.entry(f["n"])
    eng = sp.engine()
    install(eng)
    args, facts, _ = arguments(sp, m, ins)
    for x, ret in sp.call(eng, sp.state(m.base() + m.facts + facts), f["i"], args):
        ended(sp, x)
    judge(sp, eng)


def sref(name):
    return mk("ref", ("P", name), ())


def constructors(sp, short, ctor):
    f = sp.fn(short, ctor)
    sp.entry(f["n"])
    eng = sp.engine()
    install(eng)
    c = mk("init", "capacity")
    for x, ret in sp.call(eng, sp.state([le(ONE, c), lt(c, NULL)]), f["i"], [c] if f["sig"]["in"] else []):
        ended(sp, x)
    judge(sp, eng)


QUERIES = {"component_query_iter": lambda sp: queries.StartComponents(sp, "C26-ends", "C26-ends"),
           "entity_component_query_iter": lambda sp: queries.StartListed(sp, "C26-ends"),
           "ordered_query_iter": lambda sp: queries.StartOrdered(sp, "C26-ends", "C26-ends")}


def uses(sp, g, f, short):
    """f reaches a function of the type"""
    pre = sp.adt(short)["n"]
    seen, work = set(), [f["i"]]
    while work:
        i = work.pop()
        if i in seen:
            continue
        seen.add(i)
        if sp.p.units[i]["n"].startswith((pre + "::", "<" + pre + " ")):
            return True
        work += [j for j, _ in g.get(i, ())]
    return False


def run(sp):
    g = c20.graph(sp.p)
    jobs = []
    for f, ins in frames.methods(sp):
        short = f["n"].split("::")[-1]
        if short in QUERIES:
            jobs.append((query, sp, QUERIES[short]))
            continue
        jobs.append((storage, sp, f, ins))
        if uses(sp, g, f, "TagContainer"):
            jobs.append((tags, sp, f, ins))
        if uses(sp, g, f, "OrderGroupContainer"):
            jobs.append((orders, sp, f, ins))
    for f, ins in frames.methods(sp, "ResourceStore"):
        jobs.append((resources, sp, f, ins))
    for short in ("Store", "ResourceStore"):
        for ctor in ("new", "with_capacity"):
            jobs.append((constructors, sp, short, ctor))
    for c in (queries.Components, queries.Page, queries.Listed, queries.Ordered):
        jobs.append((steps, sp, c))
    jobs += [(filtering, sp), (filters, sp)]
    sp.parallel(jobs)
