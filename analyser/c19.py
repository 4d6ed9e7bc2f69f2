"""C19: each resource is dropped or returned exactly once.

An arbitrary resource store and an arbitrary live handle: what indexing by the handle
refers to is compared before and after every path of create and release, for the
handle itself and for the one created or released; drop must drop the value of an
arbitrary id exactly once if the id is alive and never otherwise; and no other
operation drops, forgets or duplicates a value of the stored type.
"""
from spec import *
from store import StoreModel
from c18 import items, sub1
import frames

ASSUMPTIONS = ["debug assertions are on", "the stored type is not zero-sized (a value of a zero-sized type has no content to lose)",
               "handles are used with the store that issued them"]
FLOORS = {"entries": 5, "C19-kept": 4, "C19-drop": 2, "C19-silent": 8, "C19-room": 6, "C19-owned": 6, "C19-stored": 3, "C19-returned": 1}
A = "ResourceStore"


def setup(sp):
    m = StoreModel(sp, "s", A)
    m.elems = sp.fld(m.s, A + ".elements")
    m.facts = [le(m.next, m.cap), le(ONE, mk("sizeof", "T")), neg(mk("pred", "isnull", m.elems))]
    sp.axioms = m.axioms()
    return m


def place(sp, eng, st, e, mut=False):
    """(state, value) an index expression refers to"""
    u = sp.fn(A, "index_mut" if mut else "index")
    out = []
    for x, r in sp.call(eng, st, u["i"], [mk("ref", ("P", "s"), ()), e], tys=["T"]):
        if x.kind != "return":
            sp.cases(eng, x, lambda y: sp.violate("C19-index", f"indexing by a live handle ends by {x.kind} ({x.why})", y))
            continue
        out.append((x, x.norm(r)))
    return out


def value(eng, st, r):
    root, proj = eng.deref(st, r, "r", None)
    v = st.norm(eng.read(st, root, proj))
    # a value and the same value in its no-drop wrapper
    return v


def unwrap(v):
    while v.op == "S" and v.a[0].endswith("ManuallyDrop"):
        v = getf(v, "value")
    if v.op == "fld" and v.a[1] == "value":
        v = v.a[0]
    return v


def drops(st, typ):
    """events that end or move a value of the type outside the normal flow: (item)"""
    from c18 import Item
    out = []
    for e in st.events():
        if e[0] in ("drop", "forget") and (e[0] == "forget" or e[1] == typ):
            out.append(Item(("x", e[2] if e[0] == "drop" else e[1], e[0])))
        elif e[0] == "loop":
            rec = e[1]
            kt = mk("k", rec.uid, *rec.ks)
            it = mk("k", f"it{rec.uid}", *rec.ks)
            for v in rec.variants:
                for x in v["ev"]:
                    if x[0] == "loop" and any(y[0] == "drop" and y[1] == typ for w in x[1].variants for y in w["ev"]):
                        raise Limit("values dropped in a nested loop")
                    if x[0] in ("drop", "forget") and (x[0] == "forget" or x[1] == typ):
                        val = x[2] if x[0] == "drop" else x[1]
                        out.append(Item(("x", sub1(val, kt, it), x[0]), it, e[2], tuple(sub1(f, kt, it) for f in v["facts"])))
    return out


def issue(m, i, v):
    return m.issued(i, v) + [m.alive(i), eq(m.ver(i), v)]


def op(sp, name):
    m = setup(sp)
    f = sp.fn(A, name)
    size = mk("sizeof", "T")
    h, hi, hv = m.entity("h")
    e, ei, ev = m.entity("e")
    sp.entry(f"{A}::{name}")
    eng = sp.engine()
    base = m.facts
    for who in (("same", "other") if name == "release" else ("other",)):
        st = sp.state(base + issue(m, hi, hv))
        args = [m.ref]
        obs = h
        if name == "release":
            for b in issue(m, ei, ev) + ([eq(hi, ei), eq(hv, ev)] if who == "same" else [neg(eq(hi, ei))]):
                st.assume(b)
            args.append(e)
            if who == "same":
                obs = e
        else:
            args.append(mk("init", "resource"))
        for s1, r in place(sp, eng, st, obs):
            v0 = unwrap(value(eng, s1, r))
            for s2, ret in sp.call(eng, s1, f["i"], args, tys=["T"]):
                if s2.kind != "return":
                    sp.cases(eng, s2, lambda s: sp.violate("C19-path", f"{name} ends by {s2.kind} ({s2.why})", s))
                    continue
                ds = drops(s2, "T")
                sp.cases(eng, s2, lambda s: room(sp, m, eng, s))
                sp.cases(eng, s2, lambda s: sp.require(s, B(not ds), "C19-silent", "a stored value is dropped or forgotten by the operation"))
                if name == "release" and who == "same":
                    sp.cases(eng, s2, lambda s: sp.require(s, B(unwrap(s.norm(ret)) is s.norm(v0)), "C19-returned",
                                                           f"release does not return the value, but {str(show(ret))[:200]}"))
                    sp.cases(eng, s2, lambda s: gone(sp, m, eng, s, ei))
                    continue
                for s3, r3 in place(sp, eng, s2, obs):
                    def kept(s, r3=r3):
                        v = unwrap(value(eng, s, r3))
                        sp.require(s, B(v is s.norm(v0)), "C19-kept", f"the value of another live handle becomes {str(show(v))[:200]}")
                    sp.cases(eng, s3, kept)
                if name == "create":
                    for s3, r3 in place(sp, eng, s2, ret):
                        def new(s, r3=r3):
                            v = unwrap(value(eng, s, r3))
                            sp.require(s, B(v is mk("init", "resource")), "C19-stored", f"the created handle refers to {str(show(v))[:200]}")
                        sp.cases(eng, s3, new)
                    sp.cases(eng, s2, lambda s: fresh(sp, m, eng, s, getf(ret, "id")))


def bit(eng, st, p, i):
    v = st.norm(p)
    b, off = (v.a[0], v.a[1]) if v.op == "ptr" else (v, ZERO)
    return eng.bitload(st, b, add(i, scale(off, 8)))


def gone(sp, m, eng, s, i):
    p = m.post(s)
    sp.require(s, neg(bit(eng, s, p.alivep, i)), "C19-owned", "a released resource still counts as stored")


def fresh(sp, m, eng, s, i):
    p = m.post(s)
    sp.require(s, bit(eng, s, p.alivep, i), "C19-owned", "a created resource does not count as stored")
    sp.require(s, lt(i, p.cap), "C19-owned", "a created resource lies outside the storage")


def room(sp, m, eng, s):
    """the buffer of values has a place for every id up to the capacity"""
    p = m.post(s)
    b = s.norm(sp.fld(p.s, A + ".elements"))
    base, off = (b.a[0], b.a[1]) if b.op == "ptr" else (b, ZERO)
    size = mul(m.cap, mk("sizeof", "T")) if base is s.norm(m.elems) else ZERO if base.op == "dangling" else None
    for it in items(s, "alloc"):
        if s.norm(it.e[1]) is base:
            size = it.e[3]
    sp.require(s, B(size is not None), "C19-room", f"the values are kept in a buffer of unknown size: {str(show(b))[:100]}")
    if size is not None:
        sp.require(s, le(add(off, mul(p.cap, mk("sizeof", "T"))), size), "C19-room", "the buffer of values has no place for some id below the capacity")


def drop(sp):
    m = setup(sp)
    d = [x for l in sp.p.fns.values() for x in l if x["n"].startswith("<") and x["n"].endswith("::drop") and "ResourceStore" in x["n"]]
    if len(d) != 1:
        raise Missing(f"drop code of {A}")
    sp.entry(f"{A}::drop")
    eng = sp.engine()
    size = mk("sizeof", "T")
    i = mk("init", "any.i")
    st = sp.state(m.facts + [ge0(i), lt(i, m.cap)])
    elems = sp.fld(m.s, A + ".elements")
    for s, r in sp.call(eng, st, d[0]["i"], [m.ref], tys=["T"]):
        if s.kind != "return":
            sp.cases(eng, s, lambda x: sp.violate("C19-drop", f"drop ends by {s.kind} ({s.why})", x))
            continue
        ds = drops(s, "T")

        def chk(x):
            v = x.norm(eng.load(pre(x), elems, mul(i, size)))
            n = 0
            for it in ds:
                w = x.norm(it.e[1]) if it.kt is None else it.e[1]
                if it.kt is None:
                    n += unwrap(w) is unwrap(v)
                    continue
                import engine
                u = engine.unify(unwrap(w), unwrap(v), it.kt)
                if u is None:
                    raise Limit(f"which iteration drops {show(v)}")
                if x.decide(band(ge0(u), lt(u, it.count))) and all(x.decide(sub1(f, it.kt, u)) for f in it.facts):
                    n += 1
            alive = x.decide(m.alive(i))
            sp.require(x, B(n == (1 if alive else 0)), "C19-drop",
                       f"the value of {'a stored' if alive else 'an empty'} slot is dropped {n} times when the store is dropped")
        sp.cases(eng, s, chk)


def pre(x):
    y = x.copy()
    y.log = None
    return y


def silent(sp):
    """no other function of the type ends or duplicates a stored value"""
    for f, ins in frames.methods(sp, A):
        name = f["n"].split("::")[-1]
        if name in ("create", "release", "drop", "new", "with_capacity"):
            continue

        def one(f=f, ins=ins, name=name):
            m = setup(sp)
            sp.entry(f"{A}::{name} (silent)")
            eng = sp.engine()
            args, fs = frames.arguments(sp, m, ins)
            st = sp.state(m.facts + fs)
            parts0 = m.s
            for x, r in sp.call(eng, st, f["i"], args):
                if x.kind not in ("return", "panic"):
                    sp.violate("C19-silent", f"{x.kind}: {x.why}", x)
                    continue
                ds = drops(x, "T")
                sp.require(x, B(not ds), "C19-silent", "a stored value is dropped or forgotten")
                sp.require(x, B(x.norm(x.mem.get(m.root, m.s)) is x.norm(parts0)), "C19-silent", "the store is changed")
                sp.require(x, B(not frames.effects(x)), "C19-silent", "stored memory is changed")
        sp.guard(one)


def ctor(sp):
    """a new store holds nothing"""
    for name in ("new", "with_capacity"):
        m = setup(sp)
        sp.entry(f"{A}::{name}")
        f = sp.fn(A, name)
        eng = sp.engine()
        st = sp.state([le(ONE, mk("sizeof", "T"))])
        for s, r in sp.call(eng, st, f["i"], [mk("init", "capacity")] if f["sig"]["in"] else [], tys=["T"]):
            if s.kind != "return":
                continue
            s.mem[m.root] = r
            sp.cases(eng, s, lambda x: room(sp, m, eng, x))
            i = mk("init", "any.i")

            def chk(x):
                p = m.post(x)
                x.assume(ge0(i), lt(i, p.cap))
                sp.require(x, neg(bit(eng, x, p.alivep, i)), "C19-owned", "a new store counts a slot as filled")
            sp.cases(eng, s, chk)


def run(sp):
    sp.parallel([(op, sp, "create"), (op, sp, "release"), (drop, sp), (silent, sp), (ctor, sp)])
