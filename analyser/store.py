"""The symbolic store every rule starts from and the facts that hold of any
reachable one (each is shown to be preserved by the rule named with it)."""
from terms import *
from spec import *


class StoreModel:
    def __init__(self, sp, root="s", adt="Store"):
        self.sp = sp
        self.adt = adt
        self.s = mk("init", root)
        self.root = ("P", root)
        self.ref = mk("ref", self.root, ())
        f = sp.fld
        self.ec = f(self.s, adt + ".entities_container")
        E = "EntitiesContainer"
        self.gap = f(self.ec, E + ".gap_ids")
        self.cap = f(self.ec, E + ".capacity")
        self.next = f(self.ec, E + ".next_free_id")
        self.verp = f(self.ec, E + ".entity_to_version")
        self.alivep = f(self.ec, E + ".entity_to_is_alive_bitvec")

    def post(self, st):
        """the store value in a later state"""
        v = st.norm(st.mem.get(self.root, self.s))
        r = type("P", (), {})()
        f = self.sp.fld
        r.s = v
        r.ec = f(v, self.adt + ".entities_container")
        E = "EntitiesContainer"
        r.gap = st.norm(f(r.ec, E + ".gap_ids"))
        r.cap = st.norm(f(r.ec, E + ".capacity"))
        r.next = st.norm(f(r.ec, E + ".next_free_id"))
        r.verp = st.norm(f(r.ec, E + ".entity_to_version"))
        r.alivep = st.norm(f(r.ec, E + ".entity_to_is_alive_bitvec"))
        return r

    def ver(self, i):
        return mk("mem", self.verp, scale(i, 4))

    def alive(self, i):
        return mk("bit", self.alivep, i)

    def entity(self, name):
        e = self.sp.adt("Entity")["n"]
        i, v = mk("init", name + ".id"), mk("init", name + ".version")
        return S(e, None, [(self.sp.f("Entity", "id"), i), (self.sp.f("Entity", "version"), v)]), i, v

    # -- facts of any reachable state (C01 shows they are preserved)
    def issued(self, i, v):
        """(i, v) was returned by this store at some time"""
        return [lt(i, self.cap), le(v, self.ver(i)), le(ONE, v)]

    def base(self):
        return [le(ONE, self.cap), le(self.next, self.cap)]

    def axioms(self):
        gap, nxt = self.gap, self.next

        def ax(st, atoms):
            n = seqlen(gap)
            gs = [a for a in atoms if a.op == "at" and a.a[0] is gap]
            for a in gs:
                if st.known(lt(a.a[1], n)):
                    st.assume(neg(self.alive(a)), lt(a, nxt))
            for x in range(len(gs)):
                for y in range(x):
                    d = st.known(eq(gs[x].a[1], gs[y].a[1]))
                    if d is False and st.known(lt(gs[x].a[1], n)) and st.known(lt(gs[y].a[1], n)):
                        st.assume(neg(eq(gs[x], gs[y])))
            for a in atoms:
                if a.op == "bit" and a.a[0] is self.alivep:
                    k = st.known(a)
                    if k is True:
                        st.assume(lt(a.a[1], nxt))
                    elif k is None and st.known(lt(a.a[1], nxt)) is False:
                        st.assume(neg(a))
                    if k is None:
                        for g in gs:
                            if st.known(eq(g, a.a[1])) and st.known(lt(g.a[1], n)):
                                st.assume(neg(a))
        return [ax]


def alivebits(cap):
    """how many bits a bit vector for cap ids has"""
    return scale(add(tdiv(cap, I(32)), ONE), 32)


class Tags:
    """the tag tables of a store value and the facts about them"""
    def __init__(self, sp, m, s=None):
        f = sp.fld
        self.sp, self.m = sp, m
        self.c = f(m.s if s is None else s, "Store.tag_container")
        T = "TagContainer"
        self.ids = f(self.c, T + ".tag_ids")
        self.vecs = f(self.c, T + ".entity_id_to_has_tag_bitvecs")
        self.cap = f(self.c, T + ".entity_capacity")

    def base(self):
        return [eq(seqlen(self.ids), seqlen(self.vecs)), eq(self.cap, self.m.cap)]

    def axioms(self):
        """tag bits are on for live entities only"""
        m = self.m

        def ax(st, atoms):
            for a in atoms:
                if a.op == "bit" and a.a[0].op == "at" and a.a[0].a[0] is self.vecs:
                    k = st.known(a)
                    al = st.known(m.alive(a.a[1]))
                    if k is True and al is not True:
                        st.assume(m.alive(a.a[1]))
                    elif k is None and al is False:
                        st.assume(neg(a))
        return [ax]


NULL = I(2**32 - 1)


class Orders:
    """the order group tables of a store value and the facts about them"""
    def __init__(self, sp, m, s=None):
        f = sp.fld
        self.sp, self.m = sp, m
        self.c = f(m.s if s is None else s, "Store.order_group_container")
        T = "OrderGroupContainer"
        self.ids = f(self.c, T + ".group_ids")
        self.fwd = f(self.c, T + ".group_index_to_forward_links")
        self.bwd = f(self.c, T + ".group_index_to_backward_links")
        self.head = f(self.c, T + ".group_index_to_head")
        self.tail = f(self.c, T + ".group_index_to_tail")
        self.cap = f(self.c, T + ".entity_capacity")

    def normed(self, st):
        for n in ("ids", "fwd", "bwd", "head", "tail", "cap"):
            setattr(self, n, st.norm(getattr(self, n)))
        return self

    def base(self):
        n = seqlen(self.ids)
        return [eq(n, seqlen(self.fwd)), eq(n, seqlen(self.bwd)), eq(n, seqlen(self.head)), eq(n, seqlen(self.tail)),
                eq(self.cap, self.m.cap), lt(self.m.cap, NULL)]

    def F(self, g, x):
        return mk("mem", mk("at", self.fwd, g), scale(x, 4))

    def Bk(self, g, x):
        return mk("mem", mk("at", self.bwd, g), scale(x, 4))

    def H(self, g):
        return mk("at", self.head, g)

    def L(self, g):
        return mk("at", self.tail, g)

    def axioms(self):
        """each group is a doubly linked list of live ids, and other ids have no links"""
        m = self.m

        def live(st, x):
            st.assume(ge0(x), m.alive(x), lt(x, m.cap))

        def isnull(st, t):
            return st.known(eq(t, NULL))

        def ax(st, atoms):
            for a in atoms:
                if a.op == "at" and a.a[0] in (self.head, self.tail):
                    g = a.a[1]
                    k = isnull(st, a)
                    other = self.L(g) if a.a[0] is self.head else self.H(g)
                    if k is False:
                        live(st, a)
                        st.assume(neg(eq(other, NULL)))
                        st.assume(eq((self.Bk if a.a[0] is self.head else self.F)(g, a), NULL))
                    elif k is True:
                        st.assume(eq(other, NULL))
                if a.op == "mem" and a.a[0].op == "at" and a.a[0].a[0] in (self.fwd, self.bwd):
                    g = a.a[0].a[1]
                    f = a.a[0].a[0] is self.fwd
                    x = tdiv(a.a[1], I(4))
                    if sub(scale(x, 4), a.a[1]) is not ZERO:
                        continue
                    k = isnull(st, a)
                    back = (self.Bk if f else self.F)(g, x)
                    end, start = (self.L(g), self.H(g)) if f else (self.H(g), self.L(g))
                    if k is False:
                        live(st, a)
                        live(st, x)
                        st.assume(eq((self.Bk if f else self.F)(g, a), x))
                        st.assume(neg(eq(a, x)))
                        st.assume(neg(eq(end, x)), neg(eq(start, a)), neg(eq(start, NULL)), neg(eq(end, NULL)))
                        if isnull(st, back) is True:
                            st.assume(eq(start, x))
                    else:
                        if k is None and (st.known(m.alive(x)) is False or isnull(st, start) is True
                                          or st.known(eq(end, x)) is True):
                            st.assume(eq(a, NULL))
                            k = True
                        if k is True:
                            b = isnull(st, back)
                            if b is False:
                                st.assume(eq(end, x))
                            elif st.known(eq(start, x)) is True:
                                st.assume(eq(end, x))
                            elif st.known(eq(end, x)) is False:
                                st.assume(eq(back, NULL), neg(eq(start, x)))
        return [ax]
