"""What the functions of a component tuple do with a page, for every arity.

Component k of the tuple is at the offset the layout lists for the k-th type, entity
i's at the i-th place of its own size; pointers and references keep the order of the
types, and assigning stores value k in place k.
"""
from spec import *
from sets import *
import c21

SLOTS = ("get_offsets", "get_offsets_unchecked", "get_refs", "get_refs_mut", "assign_to_refs")
PTRS = ("get_ptrs", "get_ptrs_mut", "add_to_ptrs", "add_to_ptrs_mut", "ptrs_to_refs", "ptrs_to_refs_mut")


def check(sp, rule, which):
    impls = []
    for l in sp.p.fns.values():
        for f in l:
            if (f.get("trait") or "").endswith("ComponentTuple") and f["n"].split("::")[-1] == which[0] and "i" in f:
                impls.append((f["n"].rsplit("::", 1)[0], [x for x in f["g"] if not x.startswith("'")]))
    if len(impls) < 12:
        sp.violate(rule, f"{len(impls)} implementations of ComponentTuple")
    for impl, names in sorted(impls, key=lambda x: len(x[1])):
        for m in which:
            sp.guard(one, sp, rule, impl, names, m)


def comps(n, v):
    """the n parts of a tuple value (a tuple of one is its element)"""
    return [v] if n == 1 else [getf(v, str(k)) for k in range(n)]


def place(v):
    return (v.a[0], v.a[1]) if v.op == "ptr" else (v, ZERO)


def one(sp, rule, impl, names, m):
    c = [f for l in sp.p.fns.values() for f in l if f["n"] == f"{impl}::{m}"]
    if len(c) != 1:
        raise Missing(f"{impl}::{m}")
    f = c[0]
    n = len(names)
    sp.entry(impl.split(" as ")[0] + ">::" + m)
    args = []
    for i, x in enumerate(f["sig"]["in"]):
        args.append(mk("ref", ("P", f"a{i}"), ()) if sp.p.tys[x["t"]]["k"] == "ref" else mk("init", f"a{i}"))
    a = [mk("init", f"a{i}") for i in range(4)]
    eng = sp.engine()

    def size(k):
        return mk("sizeof", names[k])
    if m == "assign_to_refs":
        rs = [mk("ref", ("P", f"r{k}"), ()) for k in range(n)]
        args[0] = rs[0] if n == 1 else tup(*rs)
    st = sp.state()
    if m.startswith("get_offsets"):
        return offsets(sp, rule, eng, f, names, m, args, a)
    for y, r in sp.call(eng, st, f["i"], args, tys=names):
        if y.kind != "return":
            sp.violate(rule, f"{m} ends by {y.kind} ({y.why})", y)
            continue
        sp.entries[sp.cur]["paths"] += 1

        def chk(z):
            if m == "assign_to_refs":
                vs = comps(n, a[1])
                for k in range(n):
                    got = z.norm(z.mem.get(("P", f"r{k}"), mk("init", f"r{k}")))
                    sp.require(z, B(got is z.norm(vs[k])), rule, f"component {k} is not given value {k}")
                extra = [q for q in z.mem if q[0] in ("P", "D", "R") and q not in [("P", f"r{k}") for k in range(n)]]
                sp.require(z, B(not extra and not list(z.logs())), rule, "something else is written to")
                return
            out = comps(n, r)
            data = sp.fld(a[0], "ArchetypeDataPage.components_data_ptr")
            for k in range(n):
                b, o = place(z.norm(out[k]))
                if m.startswith("get_refs"):
                    wb, wo = data, add(comps(n, a[2])[k], mul(a[1], size(k)))
                elif m.startswith("get_ptrs"):
                    wb, wo = data, comps(n, a[1])[k]
                elif m.startswith("add_to_ptrs"):
                    wb, wo = comps(n, a[0])[k], mul(a[1], size(k))
                else:
                    wb, wo = comps(n, a[0])[k], ZERO
                sp.require(z, band(B(b is z.norm(wb)), eq(o, wo)), rule,
                           f"component {k} is at {str(show(out[k]))[:200]}, not {show(wb)}+{show(wo)}")
            if list(z.logs()):
                sp.require(z, FALSE, rule, "memory is written to")
        sp.cases(eng, y, chk)


def offsets(sp, rule, eng, f, names, m, args, a):
    n = len(names)
    S_ = c21.idseq(sp, a[0])
    offs = sp.fld(a[1], "ArchetypeLayout.offsets")
    ts = [mk("typeid", t) for t in names]
    st = sp.state([le(ONE, c21.count(sp, a[0]))])
    for y, r in sp.call(eng, st, f["i"], args, tys=names):
        sets = Sets([c21.norm_seq(y, S_)], [I(i) for i in range(n)])
        s = sets.seqs[0]
        if m.endswith("unchecked") and sets.refutes(y, *[s.has(t) for t in ts]):
            continue
        if y.kind != "return":
            sp.violate(rule, f"{m} ends by {y.kind} ({y.why})", y)
            continue
        sp.entries[sp.cur]["paths"] += 1
        c21.searched(sp, y, {S_.t.a[0]}, m)
        if not m.endswith("unchecked"):
            if r.op == "S" and r.a[1] == "None":
                sp.require(y, B(sets.refutes(y, *[s.has(t) for t in ts])), rule, "nothing is found although the set has all the types")
                continue
            if not (r.op == "S" and r.a[1] == "Some"):
                raise Limit("what get_offsets returns: " + str(show(r))[:200])
            r = getf(r, "0")
            sp.require(y, B(all(sets.refutes(y, neg(s.has(t))) for t in ts)), rule, "found although the set lacks a type")
        for k, o in enumerate(comps(n, r)):
            o = y.norm(o)
            ok = FALSE
            if o.op == "mem" and o.a[0] is y.norm(offs):
                j = tdiv(o.a[1], I(8))
                ok = band(ge0(j), lt(j, c21.count(sp, a[0])), eq(mk("mem", s.t.a[0], scale(j, 16)), ts[k]))
                ok = TRUE if sets.refutes(y, neg(ok)) else ok
            sp.require(y, ok, rule, f"the offset of component {k} is {str(show(o))[:200]}")
