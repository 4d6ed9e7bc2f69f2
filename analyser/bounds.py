"""Every access to a table made for entities lies inside the table's buffer.

How big each buffer is comes from the code that releases it (which C18 shows to be the
size it was allocated with): the drop code of the store and its parts is run on an
arbitrary store, once, and names each buffer with its size. Accesses are then checked
where they happen, on every path of an operation.
"""
from spec import *
from c18 import items, hits, solve, sub1
import frames
import owners

TABLES = (("Store", ()), ("EntitiesContainer", ("entities_container",)), ("TagContainer", ("tag_container",)),
          ("OrderGroupContainer", ("order_group_container",)))


class Bounds:
    def __init__(self, sp, rule, m, only=None, facts=()):
        """only: field paths of the parts whose buffers are looked at (None: any)"""
        self.sp, self.rule, self.m = sp, rule, m
        self.only = None if only is None else [sp.fld(m.s, x) for x in only]
        self.pages = sp.fld(m.s, "Store.archetypes_container")
        self.owned = []
        self.busy = False
        self.n = 0
        saved, sp.watch = sp.watch, None
        for short, path in TABLES:
            adt = sp.adt(short)
            pp = tuple(("f", sp.f("Store", x)) for x in path)
            ot = tuple(n for n, _ in TABLES if n != short) + ("ArchetypesContainer",)
            for f in owners.own_fns(sp.p, adt["n"]):
                if f["n"].split("::")[-1] == "drop" and f["n"].startswith("<"):
                    eng = sp.engine(otypes=ot if short != "Store" else ("ArchetypesContainer", "TagContainer", "OrderGroupContainer"))
                    st = sp.state(m.base() + list(facts))
                    for x, _ in sp.call(eng, st, f["i"], [mk("ref", m.root, pp)]):
                        if x.kind == "return":
                            its = items(x, "free")
                            for it in its:
                                if it.kt is not None:
                                    n = x.norm(it.count)
                                    it.count = next((k for k, v in x.facts.sub.items() if v is n), n)
                            self.owned += its
        sp.watch = saved
        if len(self.owned) < 7:
            raise Missing(f"only {len(self.owned)} tables are released when a store is dropped")

    def install(self, eng):
        eng.onaccess = lambda st, base, off, n: self.access(eng, st, base, off, n)

    def sizeof(self, eng, st, b):
        """bytes at b, or None when it is not a table's buffer"""
        if b.op == "new":
            return self.allocated(eng, st, b)
        h = hits(self.sp, eng, st, self.owned, b)
        return h[0][0] if h else None

    def allocated(self, eng, st, b):
        for it in items(st, "alloc"):
            e = it.e
            if it.kt is None:
                if eng.samebase(st, st.norm(e[1]), b):
                    return e[3]
                continue
            u = solve(st, it, b)
            if u is not None:
                return sub1(e[3], it.kt, u)
        return None

    def access(self, eng, st, base, off, n):
        if self.busy:
            return
        base = st.norm(base)
        if base.op in ("rbase", "vbuf", "dangling"):
            return
        if self.only is not None and base.op != "new" and not any(frames.rooted(base, p) for p in self.only):
            return
        if base.op != "new" and frames.rooted(base, self.pages):
            return                                  # page memory (C04)
        if not (base.op == "new" or frames.rooted(base, self.m.s)):
            return
        eng.pending.append((st.copy(), base, off, n, eng.where(st)))

    def finish(self, eng):
        """looks at the accesses, now that what loops do is known"""
        self.busy = True
        try:
            for st, base, off, n, at in eng.pending:
                self.sp.cases(eng, st.copy(), lambda z: self.check(eng, z, base, off, n, at))
        finally:
            self.busy = False
        eng.pending = []

    def check(self, eng, z, base, off, n, at):
        b, o = z.norm(base), z.norm(off)
        size = self.sizeof(eng, z, b)
        if size is None:
            if b.op == "new":
                return
            raise Limit(f"memory of unknown size: {str(show(b))[:200]}")
        if isint(z.norm(size)):
            return                                  # page memory (C04)
        self.n += 1
        self.sp.saturate(z, [o, size])
        end = add(o, I(4) if n is None else z.norm(n))
        for a in atoms_in(o):
            if a.op == "div" and isinstance(a.a[1], int):
                for d in atoms_in(z.norm(size)):
                    if d.op == "div" and d.a[1] == a.a[1] and z.known(le(a.a[0], d.a[0])):
                        z.assume(le(a, d))
        self.sp.require(z, le(end, size), self.rule, f"an access may lie outside its table {str(show(b))[:120]}", at)
