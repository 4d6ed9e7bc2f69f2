"""Component columns: what ArchetypeLayout::new does for an arbitrary set of types.

The loop that places the columns keeps a running end. Each way through it writes one
offset, at or after the end so far, a multiple of the component's alignment; the new
end is at or after the column's last byte; the last end is within a page. So columns
do not overlap, are aligned, and fit, for as many entities as the layout says it has
room for.
"""
from spec import *
from engine import locname
import c21


def pages(sp, rule):
    """(size, alignment) of the memory of a page, as its constructor allocates it"""
    sp.entry("ArchetypeDataPage::new")
    fdata = sp.f("ArchetypeDataPage", "components_data_ptr")
    out = set()
    for y, r in sp.call(sp.engine(), sp.state(), sp.unit("ArchetypeDataPage", "new"), []):
        if y.kind != "return":
            continue
        sp.entries[sp.cur]["paths"] += 1
        b = y.norm(getf(r, fdata))
        b = b.a[0] if b.op == "ptr" and b.a[1] is ZERO else b
        al = [e for e in y.logs() if e[0] == "alloc" and e[1] is b]
        if len(al) != 1 or ival(al[0][3]) is None or ival(al[0][4]) is None:
            sp.require(y, FALSE, rule, "a new page's memory is not one allocation of a constant size")
            continue
        out.add((ival(al[0][3]), ival(al[0][4])))
    if len(out) != 1:
        raise Limit("pages are of different sizes")
    # and nothing else gives a page its memory
    adt = sp.adt("ArchetypeDataPage")["n"]
    for u in sp.p.units:
        if "body" not in u or not u["local"]:
            continue
        for b in u["body"]["blocks"]:
            for s in b["s"]:
                v = s.get("v") or {}
                if v.get("r") == "agg" and sp.p.tys[s["p"]["t"]].get("n") == adt:
                    sp.require(None, B(u["n"].split("::")[-1] == "new"), rule, f"{u['n']} makes pages")
                pj = s.get("p", {}).get("j") or []
                if pj and isinstance(pj[-1], dict) and pj[-1].get("n") == fdata and v.get("r") != "ref":
                    sp.require(None, FALSE, rule, f"{u['n']} replaces a page's memory")
    return out.pop()


class Columns:
    def __init__(self, sp, rule):
        self.sp, self.rule = sp, rule

    def run(self, align=True, room=True):
        sp = self.sp
        psize, palign = pages(sp, self.rule)
        a = mk("init", "s")
        self.sizes = sp.fld(a, "Archetype.sizes")
        self.aligns = sp.fld(a, "Archetype.aligns")
        n = c21.count(sp, a)
        sp.entry("ArchetypeLayout::new")
        old = sp.axioms

        def ax(st, atoms):
            for t in atoms:
                if t.op == "mem" and t.a[0] is self.aligns:
                    st.assume(le(ONE, t))
                if t.op == "mem" and t.a[0] is self.sizes:
                    st.assume(ge0(t))
        sp.axioms = [ax]
        eng = sp.engine()
        k = 0
        for y, r in sp.call(eng, sp.state([le(ONE, n)]), sp.unit("ArchetypeLayout", "new"), [mk("ref", ("P", "s"), ())]):
            if y.kind != "return":
                continue
            k += 1
            sp.entries[sp.cur]["paths"] += 1
            self.one(eng, y, r, n, psize, palign, align, room)
        sp.axioms = old
        if not k:
            sp.violate(self.rule, "a layout is never made")

    def one(self, eng, y, r, n, psize, palign, align, room):
        sp, rule = self.sp, self.rule
        f = lambda q: y.norm(sp.fld(r, "ArchetypeLayout." + q))
        offs, cap = f("offsets"), f("entities_capacity")
        sp.require(y, eq(f("component_count"), n), rule, "the layout is not of as many components as the set")
        base, o0 = (offs.a[0], offs.a[1]) if offs.op == "ptr" else (offs, ZERO)
        ws = [e for e in y.logs() if e[0] in ("w", "cp", "fill") and e[1] is base]
        loops = []
        for e in y.logs():
            if e[0] == "loop" and any(x[0] in ("w", "cp", "fill", "loop") and self.hits(x, base) for v in e[1].variants for x in v["log"]):
                loops.append(e)
        if ws or len(loops) != 1:
            raise Limit(f"offsets are not written by one loop ({len(ws)} writes, {len(loops)} loops)")
        rec, ks = loops[0][1], loops[0][2]
        kt = mk("k", rec.uid, *rec.ks)
        count = y.norm(ks[-1])
        sp.require(y, eq(count, n), rule, "not every component is given an offset")
        # the running end: a variable of the loop the offsets are at or after
        cands = []
        for loc, v0 in rec.v0.items():
            cands += [(p, v0) for p in self.phis(rec) if p.a[1] == loc]
        why = "no running end"
        for phi, v0 in cands:
            bad = self.end(eng, y, rec, kt, phi, v0, base, o0, cap, psize, align, room)
            if bad is None:
                for _ in range(self.n):
                    sp.require(y, TRUE, rule, "")
                break
            why = bad
        else:
            sp.require(y, FALSE, rule, why)
        if align:
            sp.require(y, B(palign >= psize and palign & (palign - 1) == 0), rule,
                       "a page's memory is less aligned than a component that fits can be")

    def hits(self, e, base):
        if e[0] == "loop":
            return any(self.hits(x, base) for v in e[1].variants for x in v["log"])
        return len(e) > 1 and e[1] is base

    def phis(self, rec):
        out = set()
        for v in rec.variants:
            for t in list(v["facts"]) + list(v["vals"].values()) + [x for e in v["log"] for x in e[1:]]:
                if isinstance(t, T):
                    out |= {q for q in atoms_in(t) if q.op == "phi" and q.a[0] == rec.uid}
        return sorted(out, key=lambda q: q.id)

    def end(self, eng, y, rec, kt, phi, v0, base, o0, cap, psize, align, room):
        """None, or why phi is not a running end of the columns"""
        sp = self.sp
        within = True
        self.n = 1
        size, al = mk("mem", self.sizes, scale(kt, 8)), mk("mem", self.aligns, scale(kt, 8))
        live = 0
        for v in rec.variants:
            st = v["st"].copy() if v.get("st") is not None else sp.state(v["facts"])
            try:
                sp.saturate(st, [size, al])
            except Contradiction:
                continue
            live += 1
            w = [e for e in v["log"] if e[0] != "loop" and len(e) > 1 and e[1] is base]
            if len(w) != 1 or w[0][0] != "w" or st.known(eq(w[0][2], add(o0, scale(kt, 8)))) is not True:
                return "an iteration does not write exactly its own component's offset"
            o = self.arith(st, w[0][3], al)
            nxt = [z for (q, z) in v["vals"].items() if locname(q) == phi.a[1]]
            if len(nxt) > 1:
                return "the running end is not followed"
            nxt = self.arith(st, nxt[0], al) if nxt else phi
            def ok(c):
                self.n += 1
                c = st.norm(c)
                if st.known(c) is True:
                    return True
                sp.saturate(st, [c])
                return st.known(st.norm(c)) is True or sp.refuted(st, neg(c))
            if room and not ok(le(phi, o)):
                return "a column starts before the end of another"
            if room and not ok(le(add(o, mul(size, cap)), nxt)):
                return "the next column can start before this one ends"
            if align and not self.multiple(st, o, al):
                return f"an offset is not a multiple of the component's alignment: {str(show(o))[:200]}"
            if not ok(le(nxt, I(psize))):
                within = False
        if not live:
            return "no component is placed"
        if room and y.known(ge0(y.norm(v0))) is not True:
            return "the first column does not start inside the page"
        if room and not within:
            sp.saturate(y)
            if y.known(y.norm(le(phi, I(psize)))) is not True:
                return "columns are not shown to end within the page"
        if not room and y.known(y.norm(le(phi, I(psize)))) is not True and not within:
            return "columns are not shown to end within the page"
        return None

    def arith(self, st, t, al):
        """masks and quotients by the alignment, which is a power of two, as remainders"""
        t = st.norm(t)
        for _ in range(8):
            c, d = parts(t)
            for m, k in d.items():
                new = None
                for x in m:
                    if x.op == "BitAnd":
                        for p, q in (x.a, x.a[::-1]):
                            if q.op == "inot" and add(q.a[0], ONE) is al:
                                p = self.arith(st, p, al)
                                new = (x, sub(p, trem(p, al)))
                            elif add(q, ONE) is al:
                                new = (x, trem(self.arith(st, p, al), al))
                    elif x.op == "div" and x.a[1] is al and al in m:
                        p = self.arith(st, x.a[0], al)
                        rest = list(m)
                        rest.remove(x)
                        rest.remove(al)
                        new = (None, mul(build(0, {tuple(rest): 1}) if rest else ONE, sub(p, trem(p, al))))
                if new is not None:
                    rest = build(c, {q: j for q, j in d.items() if q is not m})
                    if new[0] is None:
                        t = add(rest, scale(new[1], k))
                    else:
                        other = list(m)
                        other.remove(new[0])
                        t = add(rest, scale(mul(build(0, {tuple(other): 1}) if other else ONE, new[1]), k))
                    break
            else:
                return t
        return t

    def multiple(self, st, t, al):
        t = st.norm(t)
        c, d = parts(t)
        d = {m: k for m, k in d.items() if al not in m}
        t = build(c, d)
        if t is ZERO:
            return True
        if st.known(eq(st.norm(trem(t, al)), ZERO)) is True:
            return True
        for m, k in d.items():
            if len(m) == 1 and m[0].op == "rem" and m[0].a[1] is al:
                # a remainder differs from its argument by a multiple
                return self.multiple(st, add(t, scale(sub(m[0].a[0], m[0]), k)), al)
        return False
