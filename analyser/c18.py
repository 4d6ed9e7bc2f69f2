"""C18: every internal buffer is freed once, with the layout it was allocated with.

The types that own raw buffers are found from the types and the call graph. For each,
and each of its functions that something else can call: an arbitrary value, the
function, then the type's drop code. Every buffer the value owned before (what drop
would have released then) and every buffer allocated on the way must be released
exactly once on every path, with the size and alignment it was allocated with, and
nothing else may be released; no released buffer is touched; no zero-sized allocation
is requested. No value of an owning type is forgotten, duplicated or leaked.
"""
from spec import *
import owners

ASSUMPTIONS = ["paths that panic are not followed to the later drop", "values dropped by the compiler's own drop code are dropped once"]
FLOORS = {"entries": 20, "C18-once": 250, "C18-layout": 500, "C18-size": 40, "C18-foreign": 100, "C18-use": 50}

# ways to end or duplicate a value behind the compiler's back
BYPASS = ("mem::forget", "ManuallyDrop::<T>::new", "ManuallyDrop::new", "Box::<T>::leak", "Box::leak", "Box::into_raw", "mem::transmute_copy",
          "ptr::read", "<impl *const T>::read", "<impl *mut T>::read", "ptr::write", "<impl *mut T>::write", "Vec::leak", "Vec::set_len",
          "MaybeUninit::<T>::uninit", "mem::zeroed", "ManuallyDrop::<T>::take", "Vec::<T, A>::set_len", "Vec::<T, A>::leak", "ptr::drop_in_place")


class Item:
    """a release in a log: under which conditions, of what"""
    def __init__(self, e, kt=None, count=None, facts=(), loop=None):
        self.e, self.kt, self.count, self.facts, self.loop = e, kt, count, facts, loop


def items(st, kind, start=None):
    out = []
    for e in st.logs(start):
        if e[0] == kind:
            out.append(Item(e))
        elif e[0] == "loop":
            rec = e[1]
            kt = mk("k", rec.uid, *rec.ks)
            n = e[2][-1] if e[2] else kt
            alts = [[sub1(f, kt, mk("k", f"it{rec.uid}", *rec.ks)) for f in v["facts"]] for v in rec.variants]
            for i, v in enumerate(rec.variants):
                for x in v["log"]:
                    if x[0] == kind:
                        # the counter's symbol also stands for its final value outside
                        it = mk("k", f"it{rec.uid}", *rec.ks)
                        out.append(Item(tuple(sub1(y, kt, it) for y in x), it, n, alts[i], (rec, alts, i)))
                    elif x[0] == "loop" and any(y[0] in ("free", "alloc") for w in x[1].variants for y in w["log"]):
                        raise Limit("buffers handled in a nested loop")
    return out


def sub1(t, kt, r):
    return subst(t, {kt: r}) if isinstance(t, T) else t


def solve(st, it, b):
    """the iteration in which it concerns buffer b, or None"""
    import engine
    base = st.norm(it.e[1])
    if it.kt in base.ksub:
        return engine.unify(base, b, it.kt)
    for f in it.facts:
        f = st.norm(f)
        if f.op == "eq0":
            c, d = parts(f.a[0])
            k = d.get((it.kt,))
            if k in (1, -1):
                return scale(sub(f.a[0], scale(it.kt, k)), -k)
    return None


def hits(sp, eng, st, its, b):
    """the releases of buffer b: (size, align, off)"""
    out = []
    for it in its:
        if it.kt is None:
            if eng.samebase(st, st.norm(it.e[1]), b):
                out.append((it.e[2], it.e[3], it.e[4]))
            continue
        base = st.norm(it.e[1])
        u = solve(st, it, b)
        if u is None:
            if base.op != b.op or base.op == "fld" and base is not b or base.op in ("at", "new") and base.a[0] is not b.a[0]:
                continue
            raise Limit(f"which iteration releases {show(b)}")
        if not eng.samebase(st, st.norm(sub1(base, it.kt, u)), b):
            continue
        if st.decide(band(ge0(u), lt(u, it.count))) and eng.pick(st, it.loop[0], [[sub1(f, it.kt, u) for f in a] for a in it.loop[1]]) == it.loop[2]:
            out.append(tuple(sub1(x, it.kt, u) for x in it.e[2:5]))
    return out


def arbitrary(st, it, name):
    """assume an arbitrary iteration of the item; the entry of that iteration"""
    if it.kt is None:
        return it.e
    j = mk("init", name)
    st.assume(ge0(j), lt(j, it.count))
    for f in it.facts:
        st.assume(sub1(f, it.kt, j))
    return tuple(sub1(x, it.kt, j) for x in it.e)


def scenario(sp, adt, f, otypes, facts, axioms):
    short = owners.short(adt["n"])
    name = f["n"].split("::")[-1]
    sp.entry(f"{short}::{name}")
    sp.axioms = axioms
    glue = []

    def drops(a, path):
        """the drop code a value of the type runs, its parts' included"""
        glue.extend((path, x) for x in owners.own_fns(sp.p, a["n"]) if x["n"].split("::")[-1] == "drop" and x["n"].startswith("<"))
        for fl in a["v"][0]["f"]:
            n = sp.p.tys[fl["t"]].get("n")
            if len(a["v"]) == 1 and n in sp.p.adts and owners.short(n) not in otypes:
                drops(sp.p.adts[n], path + (("f", fl["n"]),))
    drops(adt, ())
    eng = sp.engine(otypes=otypes, budget=300)
    st = sp.state(facts)
    args, roots = [], []
    for i, t in enumerate(f["sig"]["in"]):
        ty = sp.p.tys[t["t"]]
        if ty["k"] == "ref" and sp.p.tys[ty["t"]].get("n") == adt["n"]:
            r = "s" if not roots else f"s{len(roots)}"
            roots.append(("P", r))
            args.append(mk("ref", ("P", r), ()))
        elif ty["k"] == "ref":
            args.append(mk("ref", ("P", f"a{i}"), ()))
        elif ty.get("n") == adt["n"]:
            raise Limit("a function that consumes an owning value")
        else:
            args.append(mk("init", f"a{i}"))
    out = sp.p.tys[f["sig"]["out"]]

    def dropped(s, rs):
        work = [s]
        for r in rs:
            for path, drop in glue:
                nxt = []
                for x in work:
                    for y, _ in sp.call(eng, x, drop["i"], [mk("ref", r, path)]):
                        if y.kind != "return":
                            sp.violate("C18-drop", f"drop ends by {y.kind} ({y.why})", y)
                            continue
                        nxt.append(y)
                work = nxt
        return work

    for d0 in dropped(st, roots):
        owned = items(d0, "free")
        s = st.copy()
        s.facts = d0.facts.copy()
        for x, ret in sp.call(eng, s, f["i"], args):
            if x.kind != "return":
                continue
            rs = list(roots)
            if out.get("n") == adt["n"]:
                x.mem[("P", "ret")] = ret
                rs.append(("P", "ret"))
            for y in dropped(x, rs):
                check(sp, eng, y, owned, short)


def check(sp, eng, y, owned, short):
    frees, allocs = items(y, "free"), items(y, "alloc")

    def once(s, it, what):
        e = arbitrary(s, it, "any.j")
        b = s.norm(e[1])
        size, align = (e[2], e[3]) if e[0] == "free" else (e[3], e[4])
        h = hits(sp, eng, s, frees, b)
        sp.require(s, B(len(h) == 1), "C18-once", f"{what} buffer {str(show(b))[:200]} is released {len(h)} times")
        for z, a, o in h[:1]:
            sp.require(s, eq(z, size), "C18-layout", f"{what} buffer {str(show(b))[:200]} is released with another size than it was allocated with")
            sp.require(s, eq(a, align), "C18-layout", f"{what} buffer {str(show(b))[:200]} is released with another alignment than it was allocated with")
            sp.require(s, eq(o, ZERO), "C18-layout", f"{what} buffer {str(show(b))[:200]} is released at another address")

    def size(s, it):
        e = arbitrary(s, it, "any.j")
        sp.require(s, le(ONE, e[3]), "C18-size", f"an allocation of no bytes can be requested ({e[5]})")

    def known(s, it):
        e = arbitrary(s, it, "any.f")
        b = s.norm(e[1])
        if b.op == "new":
            return
        r = b
        while r.op in ("fld", "at"):
            r = r.a[0]
        # a value some other function returned (its own entry shows it owns its buffers)
        ok = r.op == "call" and len(hits(sp, eng, s, frees, b)) == 1
        for o in owned:
            if o.kt is None:
                ok = ok or eng.samebase(s, s.norm(o.e[1]), b)
                continue
            u = solve(s, o, b)
            if u is not None and eng.samebase(s, s.norm(sub1(o.e[1], o.kt, u)), b):
                ok = ok or s.decide(band(ge0(u), lt(u, o.count), *[sub1(q, o.kt, u) for q in o.facts]))
        sp.require(s, B(ok), "C18-foreign", f"{str(show(b))[:200]} is released though the value does not own it")

    for it in owned:
        sp.cases(eng, y, lambda s, it=it: once(s, it, "owned"))
    for it in allocs:
        sp.cases(eng, y, lambda s, it=it: once(s, it, "new"))
        sp.cases(eng, y, lambda s, it=it: size(s, it))
    for it in frees:
        sp.cases(eng, y, lambda s, it=it: known(s, it))
    bad = [e for e in y.events("bad") if e[1] == "use-after-free"]
    for e in y.events("loop"):
        for v in e[1].variants:
            n = v["ev"]
            while n is not None and not isinstance(n, (list, tuple)):
                if n.e[0] == "bad" and n.e[1] == "use-after-free":
                    bad.append(n.e)
                n = n.p
    sp.cases(eng, y, lambda s: sp.require(s, B(not bad), "C18-use", f"a released buffer is used ({bad[0][-1] if bad else ''})"))


def bypass(sp, types):
    """values of owning types are never forgotten or duplicated"""
    sp.entry("every call in the crate")
    p = sp.p
    holds = {}

    def owning(t, seen):
        if t in seen:
            return False
        seen.add(t)
        ty = p.tys[t]
        if ty["k"] in ("ref", "ptr"):
            return False
        if ty.get("n") in types:
            return True
        a = p.adts.get(ty.get("n"))
        if a is not None and any(owning(f["t"], seen) for v in a["v"] for f in v["f"]):
            return True
        return any(owning(x, seen) for x in (ty.get("a") or []) if isinstance(x, int)) or any(owning(x, seen) for x in ty.get("ts", ()))

    local = {n for n in p.fns}
    from c20 import fnrefs
    for u in p.units:
        b = u.get("body")
        if not b or u["n"].split("::{closure")[0] not in local:
            continue
        refs = []
        fnrefs(b["blocks"], refs)
        for f in refs:
            n = f.get("n") or ""
            if not any(n.endswith(x.split("::")[-1]) and x.split("::")[0].split("<")[0].strip("<") in n for x in BYPASS):
                continue
            ts = [x for x in f.get("a", ()) if isinstance(x, int)]
            sp.obl += 1
            sp.obl_by["C18-bypass"] = sp.obl_by.get("C18-bypass", 0) + 1
            if any(owning(t, set()) for t in ts):
                sp.violate("C18-bypass", f"{n} is applied to a value that owns buffers, in {u['n']}")


def fact_base(sp, name):
    """the representation facts (shown preserved elsewhere) needed about a type"""
    from store import Orders, Tags, StoreModel
    if name == "OrderGroupContainer":
        v = mk("init", "s")
        f = lambda x: sp.fld(v, "OrderGroupContainer." + x)
        n = seqlen(f("group_ids"))
        return [eq(n, seqlen(f("group_index_to_forward_links"))), eq(n, seqlen(f("group_index_to_backward_links")))]
    if name == "TagContainer":
        v = mk("init", "s")
        f = lambda x: sp.fld(v, "TagContainer." + x)
        return [eq(seqlen(f("tag_ids")), seqlen(f("entity_id_to_has_tag_bitvecs")))]
    return []


def scenarios(sp, only=None):
    g = owners.graph(sp.p)
    own = owners.find(sp.p, g)
    jobs = []
    names = {owners.short(n) for n in own}
    for n, fns in own.items():
        if only is not None and owners.short(n) not in only:
            continue
        adt = sp.p.adts[n]
        ot = tuple(names - {owners.short(n)} - ({"EntitiesContainer"} if owners.short(n) in ("Store", "ResourceStore") else set())) \
            + ("ArchetypesContainer", "ArchetypeBuilder")
        for f in owners.interface(sp.p, g, n, fns):
            ins = [sp.p.tys[t["t"]] for t in f["sig"]["in"]]
            mut = any(t["k"] == "ref" and t.get("m") and sp.p.tys[t["t"]].get("n") == n for t in ins) or any(t.get("n") == n for t in ins)
            if not mut and sp.p.tys[f["sig"]["out"]].get("n") != n and not owners.reaches(sp.p, g, f["i"]):
                continue
            jobs.append((scenario, sp, adt, f, ot, fact_base(sp, owners.short(n)), []))
    return jobs, set(own)


def run(sp):
    jobs, own = scenarios(sp)
    jobs.append((bypass, sp, own))
    sp.parallel(jobs)
