"""C21: archetypes are sets of component types.

An archetype is read as the set of ids in its table. Every membership test must answer
by that set for an arbitrary list of types: each result is checked against what the
loops of the function established about an arbitrary listed type. Every builder
operation must change the builder's set by exactly the listed types (induction over
the iterations of its loop), never listing a type twice; building sorts by id, and the
tables of a new archetype or of a copy hold the id, size, alignment and name of the
same element at each index.
"""
from spec import *
from sets import *
from c20 import graph

ASSUMPTIONS = ["the ids of an archetype are sorted and not repeated (shown here for every archetype ever made)",
               "component types come from ComponentType::of or an archetype, so equal ids mean equal types"]
FLOORS = {"entries": 15, "C21-member": 8, "C21-set": 4, "C21-tuple": 60, "C21-table": 10, "C21-made": 1}
A = "Archetype"


def tables(sp, a):
    return {n: sp.fld(a, f"{A}.{n}") for n in ("ids", "sizes", "aligns", "names")}


def count(sp, a):
    return sp.fld(a, A + ".component_count")


def idseq(sp, a):
    return Seq(mk("rawseq", sp.fld(a, A + ".ids"), ZERO, count(sp, a), I(16)))


def arch(sp, name):
    a = mk("init", name)
    return a, mk("ref", ("P", name), ()), [le(ONE, count(sp, a))]


def booleans(sp, eng, st, r):
    """(state, value) for a boolean result"""
    for v in (True, False):
        y = st.copy()
        try:
            y.assume(r if v else neg(r))
            y.facts.propagate()
        except Contradiction:
            continue
        yield y, v


def norm_seq(st, s):
    return Seq(st.norm(s.t), s.key)


def searched(sp, st, ok, name):
    """binary searches look only in sorted id tables"""
    def go(evs):
        for e in evs:
            if e[0] == "bsearch":
                v = e[1]
                base = v.a[0] if v.op == "rawseq" else None
                if base is None or base not in ok:
                    sp.violate("C21-member", f"{name} searches {str(show(v))[:100]} as if it were sorted", st)
            elif e[0] == "loop":
                for x in e[1].variants:
                    go(x["ev"])
    go(st.events())


def witness(st, s, sets, f):
    """an element of s for which f(index) is established"""
    for a in sorted(atoms(st), key=lambda t: t.id):
        j = s.index(a, st.norm)
        if j is not None and sets.proves(st, s.within(j)) and f(j):
            return True
    return False


def tests(sp):
    """membership tests of an archetype"""
    a, ra, fa = arch(sp, "s")
    b, rb, fb = arch(sp, "other")
    S, O = idseq(sp, a), idseq(sp, b)
    L = Seq(mk("init", "list"))
    lref = mk("ref", ("P", "list"), ())
    ok = {S.t.a[0], O.t.a[0]}
    j = mk("init", "any.j")
    x = mk("init", "any.x")

    def go(name, args, other, rule, tys=None):
        sp.entry(f"{A}::{name}")
        u = sp.unit(A, name)
        eng = sp.engine()
        st = sp.state(fa + (fb if other is O else []))
        n = 0
        for y, r in sp.call(eng, st, u, args, tys=tys):
            if y.kind != "return":
                sp.violate("C21-member", f"{name} ends by {y.kind} ({y.why})", y)
                continue
            searched(sp, y, ok, name)
            for z, v in booleans(sp, eng, y, r):
                n += 1
                s, o = norm_seq(z, S), norm_seq(z, other) if other else None
                sets = Sets([q for q in (s, o) if q], [j])
                good = rule(z, v, s, o, sets)
                sp.require(z, B(bool(good)), "C21-member", f"{name} answers {v} where that is not what membership says")
        if n < 2:
            sp.violate("C21-member", f"{name} always answers the same")

    def include(z, v, s, o, sets):
        if v:
            return sets.refutes(z, o.within(j), neg(s.has(o.elem(j))))
        return witness(z, o, sets, lambda i: sets.refutes(z, s.has(o.elem(i))))

    def only(z, v, s, o, sets):
        if v:
            return include(z, v, s, o, sets) and sets.refutes(z, s.within(j), neg(o.has(s.elem(j))))
        return include(z, v, s, o, sets) or witness(z, s, sets, lambda i: sets.refutes(z, o.has(s.elem(i))))

    def exclude(z, v, s, o, sets):
        if v:
            return sets.refutes(z, o.within(j), s.has(o.elem(j)))
        return witness(z, o, sets, lambda i: sets.proves(z, s.has(o.elem(i))))

    def same(z, v, s, o, sets):
        if v:
            return sets.refutes(z, s.has(x), neg(o.has(x))) and sets.refutes(z, o.has(x), neg(s.has(x)))
        # sorted tables of the same set are equal
        p, q = sorted((s.t, o.t), key=lambda t: t.id)
        if sets.refutes(z, eq(s.len(), o.len()), mk("pred", "seqeq", p, q)):
            return True
        y = z.copy()
        try:
            y.assume(eq(s.len(), o.len()))
        except Contradiction:
            return True
        s, o = norm_seq(y, s), norm_seq(y, o)
        p, q = sorted((s.t, o.t), key=lambda t: t.id)
        return Sets([s, o]).refutes(y, mk("pred", "seqeq", p, q))

    def has(key):
        def f(z, v, s, o, sets):
            return sets.proves(z, s.has(key)) if v else sets.refutes(z, s.has(key))
        return f

    T = mk("typeid", "T")
    jobs = [("is_include_ids", [ra, lref], L, include), ("is_include", [ra, rb], O, include),
            ("is_include_only_ids", [ra, lref], L, only),
            ("is_exclude_ids", [ra, lref], L, exclude), ("is_exclude", [ra, rb], O, exclude),
            ("is_same_as", [ra, rb], O, same)]
    for name, args, o, f in jobs:
        sp.guard(go, name, args, o, f)
    sp.guard(lambda: go("has_component", [ra], None, has(T), ["T"]))

    def find(name, args, key, tys):
        sp.entry(f"{A}::{name}")
        eng = sp.engine()
        st = sp.state(fa)
        for y, r in sp.call(eng, st, sp.unit(A, name), args, tys=tys):
            if y.kind != "return":
                sp.violate("C21-member", f"{name} ends by {y.kind} ({y.why})", y)
                continue
            searched(sp, y, ok, name)
            s = norm_seq(y, S)
            sets = Sets([s], [j])
            if r.a[1] == "None":
                good = sets.refutes(y, s.has(key))
            else:
                i = getf(r, "0")
                good = sets.proves(y, s.within(i)) and sets.proves(y, eq(s.elem(i), key))
            sp.require(y, B(good), "C21-member", f"{name} answers {r.a[1]} where that is not what membership says")
    sp.guard(lambda: find("find_component_index", [ra, x], x, None))
    sp.guard(lambda: find("find_component_index_of", [ra], T, ["T"]))


def ids(sp):
    """the list of ids an archetype reports is its table"""
    a, ra, fa = arch(sp, "s")
    S = idseq(sp, a)
    sp.entry(f"{A}::included_ids")
    eng = sp.engine()
    import models
    for y, r in sp.call(eng, sp.state(fa), sp.unit(A, "included_ids"), [ra]):
        v = y.norm(models.seqval(eng, y, r)) if y.kind == "return" else None
        sp.require(y, B(v is y.norm(S.t)), "C21-member", "included_ids is not the table of ids")
    sp.entry(f"{A}::component_count")
    for y, r in sp.call(eng, sp.state(fa), sp.unit(A, "component_count"), [ra]):
        sp.require(y, eq(r, count(sp, a)), "C21-member", "component_count is not the number of types")


def builder(sp):
    """what each builder operation does to the set of types"""
    K = sp.f("ComponentType", "id")
    b = mk("init", "s")
    rb = mk("ref", ("P", "s"), ())
    pre = sp.fld(b, "ArchetypeBuilder.component_types")
    P = Seq(pre, K)
    L = Seq(mk("init", "list"), K)
    lref = mk("ref", ("P", "list"), ())
    a, ra, fa = arch(sp, "other")
    O = idseq(sp, a)
    x = mk("init", "any.x")

    def go(name, args, src, kind):
        sp.entry(f"ArchetypeBuilder::{name}")
        eng = sp.engine()
        for y, r in sp.call(eng, sp.state(fa), sp.unit("ArchetypeBuilder", name), args):
            if y.kind != "return":
                sp.violate("C21-set", f"{name} ends by {y.kind} ({y.why})", y)
                continue
            v = y.norm(y.mem.get(("P", "s"), b))
            post = y.norm(sp.fld(v, "ArchetypeBuilder.component_types"))
            try:
                got = contains(y, post, K, x)
            except Unknown as e:
                raise Limit(f"{name}: {e}")
            listed = exlist(norm_seq(y, src), x)
            old = contains(y, pre, K, x)
            want = bor(old, listed) if kind == "add" else band(old, neg(listed))
            sets = Sets([])
            good = sets.refutes(y, got, neg(want)) and sets.refutes(y, want, neg(got))
            sp.require(y, B(good), "C21-set", f"{name}: the types afterwards are {str(show(got))[:300]}, not {str(show(want))[:300]}")
            sp.require(y, B(not [e for e in y.logs() if e[0] in ("w", "bit", "fill", "cp")]), "C21-set", f"{name} writes to memory")
            sp.require(y, B(r.op == "ref" and r.a[0] == ("P", "s") and not r.a[1]), "C21-set", f"{name} does not return the builder")
            whole(y, post, src, name)

    def whole(y, post, src, name):
        """what is put in is the whole source element"""
        if post.op != "phi":
            return
        rec = engine.LOOPS[post.a[0]]
        for var in rec.variants:
            w = var["vals"].get(rec.locs[post.a[1]])
            if w is None or w.op not in ("vpush", "vins"):
                continue
            e = w.a[1] if w.op == "vpush" else w.a[2]
            st = var["st"]
            i = src.index(st.norm(getf(e, K)), st.norm)
            good = i is not None
            if good and src is L:
                good = st.norm(e) is st.norm(L.raw(i))
            elif good:
                good = all(st.norm(getf(e, sp.f("ComponentType", f))) is st.norm(mk("mem", t, mul(i, I(z))))
                           for f, t, z in ((f, tables(sp, a)[t], z) for f, t, z in
                                           (("id", "ids", 16), ("size", "sizes", 8), ("align", "aligns", 8), ("name", "names", 16))))
            sp.require(st, B(bool(good)), "C21-set", f"{name} puts in {str(show(e))[:200]}, which is not one listed type")

    sp.guard(lambda: go("include_component_types", [rb, lref], L, "add"))
    sp.guard(lambda: go("exclude_component_types", [rb, lref], L, "del"))
    sp.guard(lambda: go("include_archetype", [rb, ra], O, "add"))

    def new():
        sp.entry("ArchetypeBuilder::new")
        eng = sp.engine()
        for y, r in sp.call(eng, sp.state(), sp.unit("ArchetypeBuilder", "new"), []):
            v = y.norm(sp.fld(r, "ArchetypeBuilder.component_types")) if y.kind == "return" else None
            sp.require(y, B(v is not None and v.op == "vempty"), "C21-set", "a new builder is not empty")
    sp.guard(new)

    def empty():
        sp.entry("ArchetypeBuilder::is_empty")
        eng = sp.engine()
        for y, r in sp.call(eng, sp.state(), sp.unit("ArchetypeBuilder", "is_empty"), [rb]):
            for z, v in booleans(sp, eng, y, r):
                sp.require(z, eq(seqlen(pre), ZERO) if v else neg(eq(seqlen(pre), ZERO)), "C21-set", f"is_empty answers {v} wrongly")
    sp.guard(empty)


def build(sp):
    """building: sorted by id, same elements"""
    K = sp.f("ComponentType", "id")
    b = mk("init", "s")
    rb = mk("ref", ("P", "s"), ())
    pre = sp.fld(b, "ArchetypeBuilder.component_types")
    sp.entry("ArchetypeBuilder::build")
    eng = sp.engine()
    n = 0
    for y, r in sp.call(eng, sp.state([le(ONE, seqlen(pre))]), sp.unit("ArchetypeBuilder", "build"), [rb]):
        if y.kind != "return":
            sp.violate("C21-table", f"build ends by {y.kind} ({y.why})", y)
            continue
        n += 1
        made(sp, eng, y, r, K, pre)
    if not n:
        sp.violate("C21-table", "build never returns")


def made(sp, eng, y, r, K, pre):
    """the new archetype r has tables that agree with a sorted arrangement of pre"""
    i = mk("init", "any.i")
    srt = [e for e in y.events() if e[0] == "sort"]
    if len(srt) != 1 or y.norm(srt[0][1]) is not y.norm(pre):
        sp.violate("C21-table", "the types are not sorted before an archetype is made of them", y)
        return
    seq = y.norm(srt[0][4])
    if not byid(sp, eng, srt[0], K):
        sp.violate("C21-table", "types are sorted by something other than their id", y)
        return
    agree(sp, eng, y, r, lambda x, f: getf(mk("at", seq, i), sp.f("ComponentType", f)), seqlen(pre), i)


def byid(sp, eng, e, K):
    """the sort event orders by ascending id"""
    how, fn = e[2].split("::")[-1], e[5]
    x, y = mk("init", "any.x"), mk("init", "any.y")
    refs = [mk("ref", ("P", "any.x"), ()), mk("ref", ("P", "any.y"), ())]
    if fn is None:
        c = [f["i"] for l in sp.p.fns.values() for f in l if f["n"].endswith("ComponentType as std::cmp::Ord>::cmp")]
    else:
        c = [i for i, u in enumerate(sp.p.units) if u["n"] == fn]
    if len(c) != 1:
        raise Missing(f"the order of {e[2]}")
    bykey = "key" in how
    args = refs[:1] if bykey else refs
    if sp.p.units[c[0]]["k"] == "closure":
        args = [mk("ref", ("P", "any.f"), ())] + args
    want = getf(x, K) if bykey else None
    n = 0
    for z, r in sp.call(sp.engine(), sp.state(), c[0], args):
        n += 1
        if bykey:
            ok = z.kind == "return" and z.norm(r) is z.norm(want)
        else:
            o = sp.engine().binop(z, "Cmp", z.norm(getf(x, K)), z.norm(getf(y, K)), {}) if z.kind == "return" else None
            ok = o is not None and z.norm(o) is z.norm(r)
        if not ok:
            return False
    return n > 0


def agree(sp, eng, y, r, want, n, i):
    sp.require(y, eq(count(sp, r), n), "C21-table", "the number of types is not the number given")

    def chk(x):
        x.assume(ge0(i), lt(i, n))
        for t, f, z in (("ids", "id", 16), ("sizes", "size", 8), ("aligns", "align", 8), ("names", "name", 16)):
            p = x.norm(sp.fld(r, f"{A}.{t}"))
            base, off = (p.a[0], p.a[1]) if p.op == "ptr" else (p, ZERO)
            v = x.norm(eng.load(x, base, add(off, mul(i, I(z)))))
            w = x.norm(want(x, f))
            sp.require(x, B(v is w) if v.op == "S" or isbool(v) else eq(v, w), "C21-table",
                       f"{t}[i] is {str(show(v))[:150]}, not {str(show(w))[:150]}")
    sp.cases(eng, y, chk)


def tuples(sp):
    """every arity ComponentTuple is implemented for"""
    out = []
    for l in sp.p.fns.values():
        for f in l:
            if (f.get("trait") or "").endswith("ComponentTuple") and f["n"].split("::")[-1] == "into_archetype" and "i" in f:
                out.append((f["n"].rsplit("::", 1)[0], [x for x in f["g"] if not x.startswith("'")]))
    if len(out) < 12:
        sp.violate("C21-tuple", f"{len(out)} implementations of ComponentTuple")
    return sorted(out, key=lambda x: -len(x[1]))


def tuple_(sp, impl, names):
    K = sp.f("ComponentType", "id")
    ts = [mk("typeid", t) for t in names]
    x = mk("init", "any.x")
    named = bor(*[eq(t, x) for t in ts])

    def unit(m):
        c = [f for l in sp.p.fns.values() for f in l if f["n"] == f"{impl}::{m}"]
        if len(c) != 1:
            raise Missing(f"{impl}::{m}")
        sp.entry(c[0]["n"].split(" as ")[0] + ">::" + m)
        return c[0]["i"]

    def includes():
        a, ra, fa = arch(sp, "s")
        S = idseq(sp, a)
        eng = sp.engine()
        for y, r in sp.call(eng, sp.state(fa), unit("is_archetype_include_types"), [ra], tys=names):
            if y.kind != "return":
                sp.violate("C21-tuple", f"the test ends by {y.kind} ({y.why})", y)
                continue
            searched(sp, y, {S.t.a[0]}, impl)
            for z, v in booleans(sp, eng, y, r):
                s = norm_seq(z, S)
                # every iteration of a loop over the listed types, by number
                sets = Sets([s], [I(i) for i in range(len(ts))])
                sets.close(z)
                if v:
                    good = all(sets.refutes(z, neg(s.has(t))) for t in ts)
                else:
                    good = sets.refutes(z, *[s.has(t) for t in ts])
                sp.require(z, B(good), "C21-tuple", f"the test answers {v} where that is not what membership says")

    def change(m, kind):
        b = mk("init", "s")
        rb = mk("ref", ("P", "s"), ())
        pre = sp.fld(b, "ArchetypeBuilder.component_types")
        eng = sp.engine()
        for y, r in sp.call(eng, sp.state(), unit(m), [rb], tys=names):
            if y.kind != "return":
                sp.violate("C21-tuple", f"{m} ends by {y.kind} ({y.why})", y)
                continue
            post = y.norm(sp.fld(y.norm(y.mem.get(("P", "s"), b)), "ArchetypeBuilder.component_types"))
            got = contains(y, post, K, x)
            old = contains(y, pre, K, x)
            want = bor(old, named) if kind == "add" else band(old, neg(named))
            sets = Sets([])
            sp.require(y, B(sets.refutes(y, got, neg(want), depth=4) and sets.refutes(y, want, neg(got), depth=4)), "C21-tuple",
                       f"{m}: the types afterwards are {str(show(got))[:300]}, not {str(show(want))[:300]}")
            sp.require(y, B(r.op == "ref" and r.a[0] == ("P", "s") and not r.a[1]), "C21-tuple", f"{m} does not return the builder")
            if kind == "add":
                given(y, post, f"{m}")

    def given(y, post, what):
        """what is put in carries the type's own size and alignment"""
        rec = engine.LOOPS[post.a[0]] if post.op == "phi" else None
        els = []
        if rec:
            for var in rec.variants:
                w = var["vals"].get(rec.locs[post.a[1]])
                if w is not None and w.op in ("vpush", "vins"):
                    els.append((var["st"], w.a[1] if w.op == "vpush" else w.a[2]))
        for st, e in els:
            while e.op == "fld":
                e = e.a[0]
            cs = [item(mk("at", e.a[0], I(i))) for i in range(len(names))] if e.op == "at" else [e]
            for c in cs:
                i = st.norm(getf(c, K))
                t = [t for t in names if i is mk("typeid", t)]
                bad = [f for f, v in own(t[0]) if st.norm(getf(c, sp.f("ComponentType", f))) is not st.norm(v)] if t else ["id"]
                sp.require(st, B(not bad), "C21-tuple", f"{what}: {show(i)} is listed with the {bad} of another type")
        sp.require(y, B(bool(els)), "C21-tuple", f"{what}: nothing is put in")

    def into():
        eng = sp.engine()
        n = 0
        for y, r in sp.call(eng, sp.state(), unit("into_archetype"), [], tys=names):
            srt = [e for e in y.events() if e[0] == "sort"]
            if len(srt) != 1:
                sp.violate("C21-tuple", "the types are not sorted before an archetype is made of them", y)
                continue
            pre = y.norm(srt[0][1])
            if not dupfree(y, pre, K):
                sp.violate("C21-tuple", "a type named twice is listed twice", y)
            got = contains(y, pre, K, x)
            sets = Sets([Seq(pre, K)])
            sp.require(y, B(sets.refutes(y, got, neg(named), depth=4) and sets.refutes(y, named, neg(got), depth=4)), "C21-tuple",
                       f"the types of the new archetype are {str(show(got))[:300]}, not {str(show(named))[:300]}")
            given(y, pre, "into_archetype")
            if y.kind == "return":
                n += 1
                made(sp, eng, y, r, K, pre)
            else:
                # there is a type, so the list is not empty
                sp.require(y, B(sets.refutes(y, Seq(pre, K).has(ts[0]))), "C21-tuple", f"into_archetype ends by {y.kind} ({y.why})")
        if not n:
            sp.violate("C21-tuple", "into_archetype never returns")

    sp.guard(includes)
    sp.guard(change, "add_components_to_archetype_builder", "add")
    sp.guard(change, "remove_components_from_archetype_builder", "del")
    sp.guard(into)


def own(t):
    return [("id", mk("typeid", t)), ("size", mk("sizeof", t)), ("align", mk("alignof", t))]


def of(sp):
    """a component type describes its own type, and is the same as another by id"""
    sp.entry("ComponentType::of")
    for y, r in sp.call(sp.engine(), sp.state(), sp.unit("ComponentType", "of"), [], tys=["T"]):
        for f, v in own("T"):
            sp.require(y, B(y.kind == "return" and y.norm(getf(r, sp.f("ComponentType", f))) is y.norm(v)), "C21-tuple", f"ComponentType::of: {f} is {show(getf(r, sp.f('ComponentType', f)))}")
    sp.entry("ComponentType::eq")
    c = [f for l in sp.p.fns.values() for f in l if f["n"].endswith("ComponentType as std::cmp::PartialEq>::eq")]
    if len(c) != 1:
        raise Missing("ComponentType::eq")
    x, y_ = mk("init", "a"), mk("init", "b")
    K = sp.f("ComponentType", "id")
    eng = sp.engine()
    for y, r in sp.call(eng, sp.state(), c[0]["i"], [mk("ref", ("P", "a"), ()), mk("ref", ("P", "b"), ())]):
        same = eq(getf(x, K), getf(y_, K))
        for z, v in booleans(sp, eng, y, r):
            sp.require(z, same if v else neg(same), "C21-tuple", f"equality answers {v} wrongly")


def made_where(sp):
    """every function that puts an archetype together is reached only through build and
    clone, whose results are checked"""
    sp.entry("who makes archetypes")
    adt = sp.adt(A)["n"]
    checked = {sp.unit("ArchetypeBuilder", "build"), sp.unit(A, "clone")}
    by = {f["i"]: f for l in sp.p.fns.values() for f in l if "i" in f}
    callers = {}
    for i, cs in graph(sp.p).items():
        for j in cs:
            callers.setdefault(j, set()).add(i)
    n = 0
    for i, u in enumerate(sp.p.units):
        if "body" not in u or not u["local"]:
            continue
        makes = any((s.get("v") or {}).get("r") == "agg" and sp.p.tys[s["p"]["t"]].get("n") == adt
                    for b in u["body"]["blocks"] for s in b["s"])
        if not makes:
            continue
        n += 1
        seen, work = set(), [i]
        while work:
            j = work.pop()
            if j in seen or j in checked:
                continue
            seen.add(j)
            f = by.get(j)
            sp.require(None, B(f is None or not f.get("exported")), "C21-made",
                       f"{sp.p.units[j]['n']} makes archetypes that are not known to be sorted and without repetitions")
            work += callers.get(j, ())
    if n < 2:
        sp.violate("C21-made", "nothing makes archetypes")


def clone(sp):
    a, ra, fa = arch(sp, "s")
    sp.entry("<Archetype as Clone>::clone")
    eng = sp.engine()
    i = mk("init", "any.i")
    size = {"id": ("ids", 16), "size": ("sizes", 8), "align": ("aligns", 8), "name": ("names", 16)}
    n = 0
    for y, r in sp.call(eng, sp.state(fa), sp.unit(A, "clone"), [ra]):
        if y.kind != "return":
            sp.violate("C21-table", f"clone ends by {y.kind} ({y.why})", y)
            continue
        n += 1
        agree(sp, eng, y, r, lambda x, f: mk("mem", tables(sp, a)[size[f][0]], mul(i, I(size[f][1]))), count(sp, a), i)
    if not n:
        sp.violate("C21-table", "clone never returns")


def run(sp):
    sp.parallel([(tuple_, sp, i, n) for i, n in tuples(sp)] + [(of, sp), (made_where, sp), (tests, sp), (ids, sp), (builder, sp), (build, sp), (clone, sp)])
