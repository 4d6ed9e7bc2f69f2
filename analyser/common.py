"""The components two archetypes have in common (ArchetypesUnion).

Two parallel lists of indices are made by loops over both id tables. What each way
through the loops appends is compared with the tables: only indices of equal ids go
in, together, and an arbitrary pair of equal ids cannot be passed by (the tables are
sorted, C21).
"""
from spec import *
from sets import contains as _c
import sets
from terms import contains


W = [mk("init", "any.i"), mk("init", "any.j")]


class Odd(Exception):
    pass


class Push:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def sub(self, m):
        return Push(subst(self.a, m), subst(self.b, m))

    def pushes(self):
        return [self]


class Loop:
    def __init__(self, rec, variants, m=None):
        self.rec, self.variants, self.m = rec, variants, m or {}

    def kt(self):
        return subst(mk("k", self.rec.uid, *self.rec.ks), self.m)

    def sub(self, m):
        m2 = {k: subst(v, m) for k, v in self.m.items()}
        for k, v in m.items():
            m2.setdefault(k, v)
        if self.kt() in m:
            m2[mk("k", self.rec.uid, *self.rec.ks)] = m[self.kt()]
        return Loop(self.rec, self.variants, m2)

    def ways(self):
        """(facts, what is appended) for each way through an iteration"""
        return [([subst(f, self.m) for f in fs], [n.sub(self.m) for n in ns]) for fs, ns in self.variants]

    def pushes(self):
        return [p for _, ns in self.ways() for n in ns for p in n.pushes()]


def tree(st, l, r, stop=None):
    """what was appended to both lists, first to last"""
    out = []
    while True:
        l, r = st.norm(l), st.norm(r)
        if stop is not None and (l, r) == stop:
            break
        if l.op == "vempty" and r.op == "vempty":
            if stop is not None:
                raise Odd("the lists are emptied on the way")
            break
        if l.op == "vpush" and r.op == "vpush":
            out.append(Push(l.a[1], r.a[1]))
            l, r = l.a[0], r.a[0]
            continue
        if l.op == r.op == "phi" and l.a[0] == r.a[0]:
            rec = engine.LOOPS.get(l.a[0])
            if rec is None:
                raise Odd("a list changed by an unknown loop")
            l0, r0 = rec.v0.get(l.a[1]), rec.v0.get(r.a[1])
            if l0 is None or r0 is None:
                raise Odd("a list changed by a loop in a way that is not followed")
            m = dict(zip(rec.ks, l.a[2:]))
            own = [mk("phi", rec.uid, x.a[1], *rec.ks) for x in (l, r)]
            vs = []
            for v in rec.variants:
                ends = []
                for x, o in zip((l, r), own):
                    e = [t for q, t in v["vals"].items() if engine.locname(q) == x.a[1]]
                    ends.append(e[0] if e else o)
                ns = tree(st, ends[0], ends[1], (own[0], own[1]))
                # loops that only look for the place to stop at
                idle = [e for e in v["ev"] if e[0] == "loop" and e[1].uid not in [n.rec.uid for n in ns if isinstance(n, Loop)]]
                vs.append((v["facts"] + sets.everyiter(idle, {}, W), ns))
            out.append(Loop(rec, vs, m))
            l, r = subst(l0, m), subst(r0, m)
            continue
        raise Odd(f"the lists do not grow together: {str(show(l))[:150]} / {str(show(r))[:150]}")
    out.reverse()
    return out


def check(sp, rule):
    f = sp.fn("ArchetypesUnion", "calculate")
    sp.entry(f["n"])
    eng = sp.engine()
    A = [mk("init", n) for n in ("lhs", "rhs")]
    ids = [sp.fld(a, "Archetype.ids") for a in A]
    cnt = [sp.fld(a, "Archetype.component_count") for a in A]
    st = sp.state([le(ONE, c) for c in cnt])
    w = W

    def order(z, atoms):
        """the tables are sorted and not repeated"""
        for b in ids:
            xs = [(t, tdiv(t.a[1], I(16))) for t in atoms if t.op == "mem" and t.a[0] is b]
            for t, i in xs:
                for t2, j in xs:
                    if t is not t2 and z.known(lt(i, j)) is True:
                        z.assume(lt(t, t2))
                    elif t is not t2 and z.known(le(i, j)) is True:
                        z.assume(le(t, t2))
        for t in atoms:
            if t.op == "pred" and t.a[0] == "found" and t.a[1].op == "rawseq":
                for b, c in zip(ids, cnt):
                    if t.a[1].a[0] is not b:
                        continue
                    j = mk("bsidx", t.a[1], t.a[2])
                    if z.known(t) is True:
                        z.assume(ge0(j), lt(j, c), eq(mk("mem", b, scale(j, 16)), t.a[2]))
                    for i, n in zip(w, cnt):
                        if n is c and z.known(eq(mk("mem", b, scale(i, 16)), t.a[2])) is True:
                            z.assume(t, eq(j, i))
    sp.axioms = [order]

    def eqids(i, j):
        return eq(mk("mem", ids[0], scale(i, 16)), mk("mem", ids[1], scale(j, 16)))

    def only(z, ns):
        """whatever is appended is a pair of equal ids"""
        for n in ns:
            if isinstance(n, Push):
                a, b = z.norm(n.a), z.norm(n.b)
                ok = band(ge0(a), lt(a, cnt[0]), ge0(b), lt(b, cnt[1]), eqids(a, b))
                sp.require(z, ok, rule, "indices of different components are listed as one both sets have")
                continue
            kt = n.kt()
            it = mk("it", n.rec.uid, *kt.a[1:])
            for fs, inner in n.sub({kt: it}).ways():
                def go(y, fs=fs, inner=inner):
                    y.assume(ge0(it), lt(it, kt))
                    for g in fs:
                        y.assume(g)
                    only(y, inner)
                sp.cases(eng, z.copy(), go)

    def hit(z, ns):
        for n in ns:
            if isinstance(n, Push):
                if all(z.decide(eq(x, y)) for x, y in zip((n.a, n.b), w)):
                    return True
                continue
            kt = n.kt()
            cand = []
            for p in n.pushes():
                for t, x in zip((p.a, p.b), w):
                    t = z.norm(t)
                    if contains(t, kt):
                        k = sets_solve(z, t, x, kt)
                        if k is not None and k not in cand:
                            cand.append(k)
            for k in cand:
                if not z.decide(band(ge0(k), lt(k, kt))):
                    continue
                ways = n.sub({kt: k}).ways()
                for fs, _ in ways:
                    sp.saturate(z, fs)
                i = eng.pick(z, n.rec, [fs for fs, _ in ways])
                for g in ways[i][0]:
                    z.assume(g)
                sp.saturate(z)
                if hit(z, ways[i][1]):
                    return True
        return False

    for x, r in sp.call(eng, st, f["i"], [mk("ref", ("P", n), ()) for n in ("lhs", "rhs")]):
        if x.kind != "return":
            sp.cases(eng, x, lambda z: sp.violate(rule, f"finding common components ends by {x.kind} ({x.why})", z))
            continue
        sp.entries[sp.cur]["paths"] += 1
        l, q = sp.fld(r, "ArchetypesUnion.lhs_indices"), sp.fld(r, "ArchetypesUnion.rhs_indices")
        try:
            ns = tree(x, l, q)
        except Odd as e:
            sp.violate(rule, str(e), x)
            continue
        sp.cases(eng, x.copy(), lambda z: only(z, ns))

        def all_(z):
            z.assume(*[ge0(i) for i in w], lt(w[0], cnt[0]), lt(w[1], cnt[1]), eqids(*w))
            sp.saturate(z)
            sp.require(z, B(hit(z, ns)), rule, "a component both sets have is not listed")
        sp.cases(eng, x.copy(), all_)


def sets_solve(z, e, want, kt):
    c, d = parts(e)
    n = d.get((kt,))
    if n not in (1, -1) or any(contains(x, kt) for mo in d for x in mo if mo != (kt,)):
        return None
    return z.norm(scale(sub(want, sub(e, scale(kt, n))), n))
