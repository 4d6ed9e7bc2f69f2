"""Queries: what their functions do with the component tuples they are for.

A query access Q (reading R, writing W, or both) is looked at through its functions;
its rule shows each of them to be the one of the tuples, component by component.
"""
from spec import *
from store import *
from registry import *
import tuples as tuples_

Q_ = "query::access::ComponentQueryAccess::"


def prepare(sp, eng):
    fdata = sp.f("ArchetypeDataPage", "components_data_ptr")
    hs = eng.handlers

    def val(e, st, a):
        v = e.argval(st, a)
        if v.op == "refto":
            return st.norm(v.a[0])
        if v.op == "ptr":
            return mk("pointee", v)
        return st.norm(v)

    def name(e, fn):
        return [e.tyname(e.p.tys[x]["s"]) for x in fn["a"] if x is not None][0]

    def ptrs(e, st, fn, pg, o):
        return mk("qptrs", st.norm(getf(val(e, st, pg), fdata)), val(e, st, o))

    def h(n, f):
        hs[Q_ + n] = f
    h("is_archetype_include_types", lambda e, st, fn, a: mk("pred", "subset", mk("stup", name(e, fn)), st.norm(keyof(val(e, st, a[0])))))
    h("get_offsets", lambda e, st, fn, a: mk("offs", name(e, fn), st.norm(keyof(val(e, st, a[0]))), val(e, st, a[1])))
    h("get_ptrs", lambda e, st, fn, a: ptrs(e, st, fn, a[0], a[1]))
    h("get_refs", lambda e, st, fn, a: mk("qrefs", mk("qat", ptrs(e, st, fn, a[0], a[2]), st.norm(a[1]))))
    h("add_to_ptrs", lambda e, st, fn, a: mk("qat", val(e, st, a[0]), st.norm(a[1])))
    h("ptrs_to_refs", lambda e, st, fn, a: mk("qrefs", st.norm(a[0])))
    h("null_ptrs", lambda e, st, fn, a: mk("qnull"))


# ---------------------------------------------------------------- iterators
VIEWS, RANGES, LIST = mk("init", "views"), mk("init", "ranges"), mk("init", "list")


def sref(name):
    return mk("ref", ("P", name), ())


class Cursor:
    """an iterator over pages: what is left of it, and which item comes next

    `suf(i)`: how many items the i-th and later pages (or ranges) hold. An item is the
    y-th of part x, and is identified by how many there are from it on, suf(x) - y."""
    trait = "std::iter::Iterator"

    def __init__(self, sp):
        self.sp = sp
        f = sp.f
        V = "ComponentPageIterView"
        self.fptrs, self.fcount, self.fids = f(V, "ptrs"), f(V, "entity_count"), f(V, "entity_ids")
        self.fid, self.fver = f("Entity", "id"), f("Entity", "version")

    def seq(self):
        return VIEWS

    def suf(self, i):
        return mk("suf", i)

    def axioms(self):
        n = seqlen(self.seq())

        def ax(st, atoms):
            for t in atoms:
                if t.op == "suf":
                    i = st.norm(t.a[0])
                    st.assume(ge0(t))
                    if st.known(le(n, i)) is True:
                        st.assume(eq(t, ZERO))
                    elif st.known(lt(i, n)) is True:
                        self.part(st, i)
                        st.assume(eq(t, add(self.size(st, i), self.suf(add(i, ONE)))))
        return [ax]

    def view(self, i):
        return mk("at", VIEWS, i)

    def opened(self, st, r):
        """view and index of the item a result is made of"""
        r = st.norm(r)
        if r.op == "qrefs" and st.norm(r.a[0]).op == "qat":
            p = st.norm(r.a[0])
            b, y = st.norm(p.a[0]), st.norm(p.a[1])
            if b.op == "fld" and b.a[1] == self.fptrs and b.a[0].op == "at" and b.a[0].a[0] is VIEWS:
                return st.norm(b.a[0].a[1]), y
        return None


class Components(Cursor):
    adt = "ComponentsQueryIter"
    len = True
    withe = "component::WithEntitiesIter"

    def fields(self):
        sp = self.sp
        A = self.adt
        return [sp.f(A, x) for x in ("store", "page_views", "current_page_iter", "current_page_index", "queried_entities_count")] + \
            [sp.f("ComponentPageIter", x) for x in ("view", "next_entity_index")]

    def start(self):
        """iterators in the middle of an iteration, and what holds of them"""
        fs, fv, fc, fp, fq, fw, fe = self.fields()
        n = seqlen(VIEWS)
        for ended in (False, True):
            v = setf(mk("init", "it"), fv, sref("views"))
            v = setf(v, fs, sref("s"))
            p, e = getf(v, fp), getf(getf(v, fc), fe)
            facts = [ge0(p), ge0(e)]
            if ended:
                facts += [le(n, p), le(getf(getf(getf(v, fc), fw), self.fcount), e), eq(getf(v, fq), ZERO)]
            else:
                v = setf(v, fc, setf(getf(v, fc), fw, self.view(p)))
                facts += [lt(p, n), le(e, getf(self.view(p), self.fcount)), eq(getf(v, fq), sub(self.suf(p), e))]
            yield v, facts

    def part(self, st, i):
        st.assume(le(ONE, getf(self.view(i), self.fcount)))

    def size(self, st, i):
        return getf(self.view(i), self.fcount)

    def invariant(self, st, v):
        """[(what must hold, ...)], how many items are left"""
        fs, fv, fc, fp, fq, fw, fe = self.fields()
        n = seqlen(VIEWS)
        out = [(B(getf(v, fv) is sref("views")), "another list of pages is iterated over"),
               (B(getf(v, fs) is sref("s")), "the iterator refers to another store")]
        p, it = st.norm(getf(v, fp)), st.norm(getf(v, fc))
        w, e = st.norm(getf(it, fw)), st.norm(getf(it, fe))
        if st.decide(lt(p, n)):
            out += [(same(st, getf(w, f), getf(self.view(p), f)), "the current page is not the one counted as current") for f in (self.fptrs, self.fcount, self.fids)]
            out += [(band(ge0(e), le(e, self.size(st, p))), "the position lies outside the current page")]
            rank = sub(self.suf(p), e)
        else:
            out += [(le(getf(w, self.fcount), e), "pages are left over after the last")]
            rank = ZERO
        return out, rank, getf(v, fq)

    def item(self, st, r):
        x = self.opened(st, r)
        return None if x is None else (x[0], x[1], x[1])

    def entity(self, st, x, y, item):
        i = mk("mem", getf(self.view(x), self.fids), scale(y, 4))
        return i, None

    def ranked(self, x, y):
        return sub(self.suf(x), y)

    def inside(self, x, y):
        return band(ge0(x), lt(x, seqlen(VIEWS)), ge0(y), lt(y, getf(self.view(x), self.fcount)))


class Page(Cursor):
    """the entities of one page"""
    adt = "ComponentPageIter"
    len = True
    withe = None

    def start(self):
        v = mk("init", "it")
        w = getf(v, self.sp.f(self.adt, "view"))
        e = getf(v, self.sp.f(self.adt, "next_entity_index"))
        yield v, [ge0(e), le(e, getf(w, self.fcount))]

    def axioms(self):
        return []

    def invariant(self, st, v):
        w0 = getf(mk("init", "it"), self.sp.f(self.adt, "view"))
        w = st.norm(getf(v, self.sp.f(self.adt, "view")))
        e = getf(v, self.sp.f(self.adt, "next_entity_index"))
        out = [(same(st, getf(w, f), getf(w0, f)), "the page iterated over changes") for f in (self.fptrs, self.fcount, self.fids)]
        out += [(band(ge0(e), le(e, getf(w, self.fcount))), "the position lies outside the page")]
        return out, sub(getf(w0, self.fcount), e), None

    def item(self, st, r):
        r = st.norm(r)
        w0 = getf(mk("init", "it"), self.sp.f(self.adt, "view"))
        if r.op == "qrefs" and r.a[0].op == "qat" and r.a[0].a[0] is getf(w0, self.fptrs):
            return ZERO, st.norm(r.a[0].a[1]), None
        return None

    def ranked(self, x, y):
        return sub(getf(getf(mk("init", "it"), self.sp.f(self.adt, "view")), self.fcount), y)

    def inside(self, x, y):
        return ge0(y)


class Ranged(Cursor):
    fields_ = ()

    def names(self):
        return [self.sp.f(self.adt, x) for x in ("entity_ranges", "range_pages", "next_range_index", "next_offset_from_range")]

    def rng(self, i):
        r = mk("at", RANGES, i)
        return getf(r, "start"), getf(r, "end")

    def seq(self):
        return RANGES

    def part(self, st, i):
        a, b = self.rng(i)
        st.assume(ge0(a), lt(a, b))

    def size(self, st, i):
        a, b = self.rng(i)
        return sub(b, a)

    def start(self):
        fr, fv, fp, fo = self.names()
        n = seqlen(RANGES)
        for ended in (False, True):
            v = setf(setf(mk("init", "it"), fv, sref("views")), fr, sref("ranges"))
            v, more = self.extra(v)
            p, o = getf(v, fp), getf(v, fo)
            facts = [ge0(p), ge0(o), eq(n, seqlen(VIEWS))] + more
            if ended:
                facts += [le(n, p)] + ([eq(getf(v, self.flen), ZERO)] if self.len else [])
            else:
                a, b = self.rng(p)
                facts += [lt(p, n), lt(o, sub(b, a))] + ([eq(getf(v, self.flen), sub(self.suf(p), o))] if self.len else [])
            yield v, facts

    def invariant(self, st, v):
        fr, fv, fp, fo = self.names()
        n = seqlen(RANGES)
        out = [(B(getf(v, fv) is sref("views") and getf(v, fr) is sref("ranges")), "other ranges are iterated over")] + self.kept(v)
        p, o = st.norm(getf(v, fp)), st.norm(getf(v, fo))
        if st.decide(lt(p, n)):
            a, b = self.rng(p)
            out += [(band(ge0(o), lt(o, sub(b, a))), "the position lies outside the current range")]
            rank = sub(self.suf(p), o)
        else:
            rank = ZERO
        return out, rank, getf(v, self.flen) if self.len else None

    def ranked(self, x, y):
        return sub(self.suf(x), sub(y, self.rng(x)[0]))

    def inside(self, x, y):
        a, b = self.rng(x)
        return band(ge0(x), lt(x, seqlen(RANGES)), le(a, y), lt(y, b))


class Listed(Ranged):
    """over the entities of a list"""
    adt = "EntityComponentQueryIter"
    len = False
    withe = "entity_component::WithEntitiesIter"

    def extra(self, v):
        sp = self.sp
        self.fptr, self.flist = sp.f(self.adt, "entity_to_index_in_page_ptr"), sp.f(self.adt, "entities")
        self.eip = sp.fld(mk("init", "s"), "Store.entity_to_index_in_page")
        return setf(setf(v, self.flist, sref("list")), self.fptr, self.eip), []

    def part(self, st, i):
        super().part(st, i)
        st.assume(le(self.rng(i)[1], seqlen(LIST)))

    def kept(self, v):
        return [(B(getf(v, self.flist) is sref("list")), "another list of entities is iterated over"),
                (B(getf(v, self.fptr) is self.eip), "another table of indices is used")]

    def ent(self, z):
        return mk("at", LIST, z)

    def item(self, st, r):
        o = self.opened(st, r)
        if o is None:
            return None
        x, i = o
        if i.op == "mem" and i.a[0] is self.eip:
            t = st.norm(tdiv(i.a[1], I(4)))
            if t.op == "fld" and t.a[1] == self.fid and t.a[0].op == "at" and t.a[0].a[0] is LIST:
                return x, st.norm(t.a[0].a[1]), i
        return None

    def entity(self, st, x, y, i):
        return getf(self.ent(y), self.fid), getf(self.ent(y), self.fver)


class Ordered(Ranged):
    """over the members of a group"""
    adt = "OrderedComponentQueryIter"
    len = True
    withe = "ordered_component::WithEntitiesIter"

    def extra(self, v):
        self.flen = self.sp.f(self.adt, "len")
        self.fst = self.sp.f(self.adt, "store")
        return setf(v, self.fst, sref("s")), []

    def kept(self, v):
        return [(B(getf(v, self.fst) is sref("s")), "the iterator refers to another store")]

    def item(self, st, r):
        o = self.opened(st, r)
        return None if o is None else (o[0], o[1], o[1])

    def entity(self, st, x, y, i):
        return mk("mem", getf(self.view(x), self.fids), scale(y, 4)), None


def same(st, a, b):
    a, b = st.norm(a), st.norm(b)
    if isint(a) or isint(b):
        return eq(a, b)
    return TRUE if a is b or st.known(eq(a, b)) is True else B(False)


def begin(sp, c, rule):
    """an arbitrary iterator in the middle of an iteration, twice: with and without items left in sight"""
    for v, facts in c.start():
        eng = engine_for(sp, c, rule)
        st = sp.state(facts)
        st.mem[("P", "it")] = v
        st.mem[("P", "views")], st.mem[("P", "ranges")], st.mem[("P", "list")] = VIEWS, RANGES, LIST
        sp.saturate(st)
        yield eng, v, st


def engine_for(sp, c, rule=None):
    eng = sp.engine()
    prepare(sp, eng)
    eng.unroll = 3
    eng.onheader = lambda st: sp.saturate(st)
    if rule:
        eng.onassert = lambda st, b: quiet(sp, st, b, rule, eng)
    return eng


def quiet(sp, st, b, rule, eng):
    """an arithmetic or bounds check never fails"""
    y = st.copy()
    try:
        sp.saturate(y)
        if y.known(b) is not True and not sp.refuted(y, neg(b)):
            sp.violate(rule, "a step may panic: " + str(show(y.norm(b)))[:200], y, None, eng.where(st))
    except Contradiction:
        pass


def step(sp, c, rule, lens, y, z, v, v2, r):
    """result r of a step from v to v2; what its item is made of"""
    if y.kind != "return":
        sp.violate(rule, f"ends by {y.kind} ({y.why})", y)
        return None
    _, before, cnt0 = c.invariant(z, z.norm(v))
    sp.saturate(z, [before])
    inv, after, cnt = c.invariant(z, v2)
    sp.saturate(z, [before, after])
    for g, what in inv:
        sp.require(z, g, rule, what)
    if lens and cnt is not None:
        sp.require(z, eq(cnt, after), lens, "the count kept is not the number of items left")
    o = z.norm(r)
    if o.op != "S" or o.a[1] not in ("Some", "None"):
        raise Limit("what next returns: " + str(show(o))[:200])
    if o.a[1] == "None":
        sp.require(z, eq(before, ZERO), rule, "the iteration ends although items are left")
        sp.require(z, eq(after, ZERO), rule, "items are left after the end")
        return None
    o = z.norm(getf(o, "0"))
    it = c.item(z, getf(o, "1") if o.op == "S" else o)
    if it is None:
        sp.require(z, FALSE, rule, "an item is not made of a listed page's components: " + str(show(o))[:300])
        return None
    x, i = it[0], it[1]
    sp.saturate(z, [c.ranked(x, i)])
    if sp.require(z, c.inside(x, i), rule, "an item lies outside the pages or ranges listed"):
        sp.require(z, eq(c.ranked(x, i), before), rule, "an item is not the next one")
    sp.require(z, eq(after, sub(before, ONE)), rule, "a step does not move on by one item")
    return it, o


def steps(sp, c, rule, lens):
    """each step yields the next item, or ends when there is none; the length follows"""
    sp.axioms = c.axioms()
    f = sp.fn(c.adt, "next")
    sp.entry(f"{c.adt}::next")
    for eng, v, st in begin(sp, c, rule):
        for y, r in sp.call(eng, st, f["i"], [sref("it")]):
            sp.entries[sp.cur]["paths"] += 1
            sp.cases(eng, y.copy(), lambda z: step(sp, c, rule, lens, y, z, v, z.norm(z.mem[("P", "it")]), r))
    sp.axioms = []


def pairs(sp, c, rule):
    """with entities, each step pairs the item with the entity it belongs to"""
    m = StoreModel(sp)
    sp.axioms = c.axioms()
    f, g = sp.fn(c.adt, "with_entities"), sp.fn(c.withe, "next")
    src = sp.f(c.withe, "source_iter")
    sp.entry(f"{c.withe}::next")
    for eng, v, st in begin(sp, c, rule):
        for x, w in sp.call(eng, st, f["i"], [v]):
            if x.kind != "return":
                sp.violate(rule, f"with_entities ends by {x.kind} ({x.why})", x)
                continue
            sp.require(x, B(x.norm(getf(w, src)) is x.norm(v)), rule, "with_entities changes the iterator")
            x.mem[("P", "it")] = w
            for y, r in sp.call(eng, x, g["i"], [sref("it")]):
                sp.entries[sp.cur]["paths"] += 1

                def chk(z):
                    w2 = z.norm(z.mem[("P", "it")])
                    q = step(sp, c, rule, None, y, z, v, z.norm(getf(w2, src)), r)
                    sp.require(z, B(z.norm(setf(w2, src, getf(w, src))) is z.norm(w)), rule, "a step changes more than the iterator underneath")
                    if q is None:
                        return
                    it, o = q
                    e = z.norm(getf(o, "0"))
                    i, ver = c.entity(z, *it)
                    sp.require(z, eq(getf(e, c.fid), i), rule, "the id is not that of the entity the item belongs to")
                    sp.require(z, eq(getf(e, c.fver), m.ver(i) if ver is None else ver), rule, "the version is not that of the entity")
                sp.cases(eng, y.copy(), chk)
    sp.axioms = []


def lens(sp, c, rule):
    """len is how many items are left"""
    sp.axioms = c.axioms()
    f = sp.fn(c.adt, "len")
    sp.entry(f"{c.adt}::len")
    for eng, v, st in begin(sp, c, rule):
        for y, r in sp.call(eng, st, f["i"], [sref("it")]):
            sp.entries[sp.cur]["paths"] += 1

            def chk(z):
                sp.require(z, B(y.kind == "return"), rule, f"ends by {y.kind} ({y.why})")
                _, left, _ = c.invariant(z, z.norm(v))
                sp.saturate(z, [left])
                sp.require(z, eq(r, left), rule, "the length is not the number of items left")
                sp.require(z, B(z.mem[("P", "it")] is v), rule, "asking for the length changes the iterator")
            sp.cases(eng, y, chk)
    sp.axioms = []


def source(sp):
    """a filter over any source of items: the c-th is item(c), n of them"""
    F = "FilterTagIter"
    g, s = sp.fn(F, "next"), sp.fn("component::WithEntitiesIter", "next")
    sp.entry(f"{F}::next")
    E = sp.adt("Entity")["n"]
    n, cur = mk("init", "n"), ("P", "cursor")
    fid, fver = sp.f("Entity", "id"), sp.f("Entity", "version")

    def nth(j):
        return S("tup", None, [("0", S(E, None, [(fid, mk("srcid", j)), (fver, mk("srcver", j))])), ("1", mk("srcitem", j))])

    def nxt(e, st, fn, a):
        a = st.norm(a[0])
        if a.op != "ref" or a.a[0] != ("P", "it"):
            raise Limit("another iterator is advanced")
        c = st.norm(e.read(st, cur, []))
        if st.decide(lt(c, n)):
            e.write(st, cur, [], add(c, ONE))
            return some(nth(c))
        return NONE
    eng = sp.engine()
    prepare(sp, eng)
    eng.handlers[s["n"]] = nxt
    v = mk("init", "it")
    c0 = mk("init", "c0")
    st = sp.state([le(c0, n)])
    st.mem[("P", "it")], st.mem[cur] = v, c0
    return eng, st, g, v, n, c0, cur, nth


def filtered(sp, rule):
    """filter_tag passes on exactly the items whose entity has the tag"""
    eng, st, g, v, n, c0, cur, nth = source(sp)
    vec = getf(v, sp.f("FilterTagIter", "entity_to_has_tag"))
    bit = lambda j: mk("bit", vec, mk("srcid", j))
    any_ = mk("init", "any.j")
    for y, r in sp.call(eng, st, g["i"], [sref("it")]):
        sp.entries[sp.cur]["paths"] += 1

        def chk(z):
            if y.kind != "return":
                sp.violate(rule, f"ends by {y.kind} ({y.why})", y)
                return
            sp.require(z, B(z.norm(z.mem[("P", "it")]) is v), rule, "filtering changes more than the iterator underneath")
            c, o = z.norm(z.mem[cur]), z.norm(r)
            if o.op != "S" or o.a[1] not in ("Some", "None"):
                raise Limit("what next returns: " + str(show(o))[:200])
            end = c
            if o.a[1] == "Some":
                end = sub(c, ONE)
                sp.require(z, B(z.norm(getf(o, "0")) is z.norm(nth(end))), rule, "what is yielded is not the item just taken from underneath")
                sp.require(z, bit(end), rule, "an item is yielded whose entity's bit is off")
            else:
                sp.require(z, eq(c, n), rule, "the iteration ends although items are left")
            # the items passed over
            z.assume(le(c0, any_), lt(any_, end))
            for b in everyiter([e for e in z.events() if e[0] == "loop"], {}, [sub(any_, c0)]):
                z.assume(b)
            z.facts.propagate()
            sp.require(z, neg(bit(any_)), rule, "an item is passed over whose entity's bit is on")
        sp.cases(eng, y.copy(), chk)


def tagged(sp, rule):
    """the bits filter_tag looks at are those has_tag reports"""
    from store import Tags
    m = StoreModel(sp)
    t = Tags(sp, m)
    sp.axioms = m.axioms() + t.axioms()
    f, h = sp.fn("component::WithEntitiesIter", "filter_tag"), sp.fn("Store", "has_tag")
    sp.entry("filter_tag")
    F = "FilterTagIter"
    c = Components(sp)
    e, ei, ev = m.entity("e")
    src = sp.f("component::WithEntitiesIter", "source_iter")
    for v, facts in c.start():
        eng = sp.engine(otypes=("ArchetypesContainer", "OrderGroupContainer"))
        eng.sorted.add(t.ids)
        w = setf(mk("init", "w"), src, v)
        st = sp.state(m.base() + t.base() + m.issued(ei, ev) + [m.alive(ei), eq(m.ver(ei), ev)])
        for x, r in sp.call(eng, st, f["i"], [w], tys=["Q", "T"]):
            if x.kind != "return":
                continue    # a tag type no entity ever had
            sp.require(x, B(x.norm(getf(r, sp.f(F, "source_iter"))) is x.norm(w)), rule, "filter_tag changes the iterator")
            for y, b in sp.call(eng, x, h["i"], [m.ref, e], tys=["T"]):
                sp.entries[sp.cur]["paths"] += 1

                def chk(z):
                    sp.require(z, B(y.kind == "return"), rule, f"has_tag ends by {y.kind} ({y.why})")
                    on = bitof(eng, z, getf(r, sp.f(F, "entity_to_has_tag")), ei)
                    sp.require(z, band(bor(neg(b), on), bor(neg(on), b)), rule, "the bit looked at is not what has_tag reports")
                sp.cases(eng, y.copy(), chk)
    sp.axioms = []


# ---------------------------------------------------------------- what an iteration starts from
import engine as engine_
import c06

NULLID = I(2**32 - 1)


def leaves(st):
    ts = set()
    for b in st.facts.bools:
        ts |= atoms_in(b)
    for p in st.facts.ge + st.facts.neq:
        ts |= atoms_in(p)
    for k, v in st.facts.sub.items():
        ts |= atoms_in(k) | atoms_in(v)
    return ts


class Start:
    """a path of the function that starts an iteration, and the lists it leaves behind"""

    def __init__(self, sp, rule, c, fn, tys, args, cpl=True):
        self.sp, self.rule, self.c = sp, rule, c
        self.m, self.R = c06.start(sp)
        self.f = sp.fn("Store", fn)
        sp.entry(self.f["n"])
        self.eng = sp.engine(otypes=self.otypes)
        semantics(sp, self.eng)
        tuples(sp, self.eng)
        prepare(sp, self.eng)
        self.R.eng = self.eng
        self.args, self.tys = [self.m.ref] + args, tys
        self.fld_ = lambda v, a: getf(v, sp.f(self.c.adt, a))
        self.extra = []

    otypes = REST

    def req(self, st, b, what, rule=None):
        return self.sp.require(st, b, rule or self.rule, what)

    def results(self):
        st = self.sp.state(self.m.base() + self.R.base() + self.extra)
        st.mem[("P", "list")] = LIST
        self.prepare(st)
        for x, r in self.sp.call(self.eng, st, self.f["i"], self.args, tys=self.tys):
            self.sp.entries[self.sp.cur]["paths"] += 1
            yield x, r

    def prepare(self, st):
        pass

    def behind(self, st, ref):
        """the list a reference in the iterator refers to"""
        ref = st.norm(ref)
        if ref.op != "ref":
            raise Limit("the iterator refers to a list of unknown origin")
        return st.norm(self.eng.read(st, ref.a[0], list(ref.a[1])))

    # -- lists built by loops
    def pieces(self, st, l, base):
        """what l has after base: [("push", element) or ("loop", loop, value)]"""
        out, l = [], st.norm(l)
        while l is not base:
            if l.op == "vpush":
                out.append(("push", st.norm(l.a[1])))
                l = st.norm(l.a[0])
            elif l.op == "phi":
                rec = engine_.LOOPS[l.a[0]]
                out.append(("loop", rec, l))
                l = st.norm(rec.v0[l.a[1]])
            elif l.op == "vempty" and base is None:
                break
            else:
                if any(a.op == "init" for a in atoms_in(l)) or l.op in ("init", "field", "fld"):
                    self.req(st, B(False), "the iterator goes over a list that still has what an earlier use of the query left in it ("
                             + str(show(l))[:100] + ")", self.rule.split("-")[0] + "-stale")
                raise Limit(f"a list of unknown origin ({l.op}): {str(show(l))[:200]}")
        return out[::-1]

    def after(self, v, phi, raw=False):
        """the value at the end of iteration v of what is phi at its start"""
        for loc, val in v["vals"].items():
            if engine_.locname(loc) == phi.a[1]:
                return val if raw else v["st"].norm(val)
        return phi if raw else v["st"].norm(phi)

    def variants(self, rec):
        for v in rec.variants:
            vs = v["st"].copy()
            try:
                self.sp.saturate(vs)
            except Contradiction:
                continue
            yield v, vs

    def phi(self, st, rec, t):
        """the one value carried by loop rec in t"""
        r = {a for a in atoms_in(st.norm(t)) if a.op == "phi" and a.a[0] == rec.uid}
        if len(r) != 1:
            raise Limit("what a loop carries along: " + str(show(t))[:200])
        return r.pop()

    # -- what is in the lists
    def matches(self, st, x):
        """page x is laid out for a set that has the types asked for"""
        return mk("pred", "subset", mk("stup", "T"), st.norm(keyof(mk("at", self.R.A, st.norm(self.R.pa(x))))))

    def viewof(self, st, w, q, what="a view"):
        """w is the view of page q"""
        R, c = self.R, self.c
        pg = mk("at", R.P, q)
        a = st.norm(R.pa(q))
        p = mk("qptrs", getf(pg, R.fdata), mk("offs", "T", keyof(mk("at", R.A, a)), mk("at", R.L, a)))
        self.req(st, B(st.norm(getf(w, c.fptrs)) is st.norm(p)), what + "'s pointers are not into its page's columns for the queried types: "
                 + str(show(st.norm(getf(w, c.fptrs))))[:200])
        self.req(st, eq(getf(w, c.fcount), seqlen(getf(pg, R.fids))), what + "'s number of entities is not its page's")
        y = mk("init", "any.y")
        z = st.copy()
        z.assume(ge0(y), lt(y, seqlen(getf(pg, R.fids))))
        self.req(z, eq(tab(self.eng, z, getf(w, c.fids), y), R.slot(q, y)), what + "'s list of entities is not its page's")

    def covers(self, st, rec, x, n):
        """over the iterations of rec, x takes each value below n once"""
        kt = mk("k", rec.uid, *rec.ks)
        c, d = parts(x)
        k = d.get((kt,))
        c0 = sub(x, scale(kt, k)) if k in (1, -1) else None
        if c0 is None or contains(c0, kt):
            self.req(st, FALSE, "a loop does not visit one thing after the other: " + str(show(x))[:200])
            return
        self.req(st, eq(c0, ZERO if k == 1 else sub(n, ONE)), "a loop does not start at the end of what it visits")
        self.req(st, eq(kt, n), "a loop may end before everything is visited")


class StartComponents(Start):
    def __init__(self, sp, rule, crule):
        super().__init__(sp, rule, Components(sp), "component_query_iter", ["T"], [sref("q")])
        self.crule = crule

    def run(self):
        for x, r in self.results():
            self.sp.cases(self.eng, x.copy(), lambda st: self.one(st, x, r))

    def one(self, st, x, r):
        if x.kind != "return":
            self.req(st, FALSE, f"ends by {x.kind} ({x.why})")
            return
        r = st.norm(r)
        V = self.behind(st, self.fld_(r, "page_views"))
        ps = self.pieces(st, V, None)
        if len(ps) != 1 or ps[0][0] != "loop":
            self.req(st, FALSE, "the list of pages is not made by visiting all pages once")
        else:
            self.outer(st, ps[0][1], ps[0][2])
        self.first(st, r, V)
        self.counted(st, V, self.fld_(r, "queried_entities_count"), None, None)

    def index(self, vs, rec, bases, more):
        kt = mk("k", rec.uid, *rec.ks)
        ts = leaves(vs)
        for t in more:
            ts |= atoms_in(vs.norm(t))
        return {vs.norm(t.a[1]) for t in ts if t.op == "at" and t.a[0] in bases and contains(t.a[1], kt)}

    def looked(self, rec, phi, bases):
        """the places of the lists looked at in iterations of rec"""
        out = set()
        for v, vs in self.variants(rec):
            for x in self.index(vs, rec, bases, [self.after(v, phi)]):
                if not any(y.op == "at" or y.op == "phi" and y.a[0] != rec.uid for y in atoms_in(x)):
                    out.add(x)
        return {x for x in out if not any(y.op == "phi" for y in atoms_in(x)) or self.beyond(rec, x)}

    def beyond(self, rec, x):
        """x is where rec is, plus how far a loop inside looks from there: (where, how far)"""
        c, d = parts(x)
        if c or len(d) != 2 or set(d.values()) != {1} or any(len(k) != 1 for k in d):
            return None
        p, k = sorted((k[0] for k in d), key=lambda t: t.op != "phi")
        if p.op == "phi" and p.a[0] == rec.uid and k.op == "k" and k.a[0] != rec.uid:
            return p, k
        return None

    def visits(self, st, rec, phi, x, n, leaf):
        """each place below n is looked at once; leaf(state, list after, place)

        Either every iteration looks at the next place, or it passes over some in a loop
        of its own first, and starts after the one it stopped at the next time."""
        pk = self.beyond(rec, x)
        if pk is None:
            self.covers(st, rec, x, n)
            for v, vs in self.variants(rec):
                self.sp.cases(self.eng, vs, lambda z: leaf(z, self.after(v, phi), x))
            return
        p, k = pk
        j = mk("init", "any.passed")

        def passed(y, how):
            es = [e for e in y.events() if e[0] == "loop" and e[1].uid == k.a[0]]
            if not es:
                self.req(y, FALSE, how)
                return
            z = y.copy()
            z.assume(ge0(j), lt(j, k))
            for b in everyiter(es[-1:], {}, [j]):
                z.assume(b)
            z.facts.propagate()
            self.req(z, lt(add(p, j), n), "a place beyond the end is looked at")
            self.sp.cases(self.eng, z, lambda w: leaf(w, phi, add(p, j)))
        self.req(st, eq(rec.v0[p.a[1]], ZERO), "a loop does not start at the end of what it visits")
        for v, vs in self.variants(rec):
            self.req(vs, eq(self.after(v, p), add(x, ONE)), "a loop does not go on after where it stopped")
            self.req(vs, lt(x, n), "a place beyond the end is looked at")
            self.sp.cases(self.eng, vs.copy(), lambda z: leaf(z, self.after(v, phi), x))
            passed(vs, "places are passed over")
        self.req(st, le(n, add(p, k)), "a loop may end before everything is visited")
        passed(st, "places at the end are passed over")

    def outer(self, st, rec, phi):
        """a loop over archetypes, or over all pages"""
        R = self.R
        xs = self.looked(rec, phi, (R.A, R.AP, R.L))
        if len(xs) == 1:
            self.visits(st, rec, phi, xs.pop(), seqlen(R.A), lambda z, l, X: self.archetype(z, l, phi, X))
            return
        ps = self.looked(rec, phi, (R.P, R.PA))
        if len(ps) != 1:
            self.req(st, FALSE, "the loop that lists pages visits neither archetypes nor pages one after the other")
            return
        self.visits(st, rec, phi, ps.pop(), seqlen(R.P), lambda z, l, q: self.page(z, l, phi, q))

    def archetype(self, st, l, phi, X):
        """an iteration that looks at archetype X"""
        R = self.R
        st.assume(lt(X, seqlen(R.A)))
        self.sp.saturate(st)
        ps = self.pieces(st, l, phi)
        if not ps:
            # nothing listed: no page of it can matter
            m = mk("pred", "subset", mk("stup", "T"), keyof(mk("at", R.A, X)))
            ok = bor(neg(m), eq(seqlen(R.of(X)), ZERO))
            self.req(st, ok, "an archetype's pages are left out although it has the queried types")
            return
        if len(ps) != 1 or ps[0][0] != "loop":
            self.req(st, FALSE, "an archetype's pages are not visited one after the other")
            return
        _, rec, phi2 = ps[0]
        ys = self.looked(rec, phi2, (st.norm(R.of(X)),))
        if len(ys) != 1:
            self.req(st, FALSE, "an archetype's pages are not visited one after the other")
            return

        def leaf(z, l, Y):
            q = z.norm(mk("at", R.of(X), Y))
            z.assume(lt(X, seqlen(R.A)), lt(Y, seqlen(R.of(X))))
            self.sp.saturate(z, [q])
            self.page(z, l, phi2, q)
        self.visits(st, rec, phi2, ys.pop(), seqlen(R.of(X)), leaf)

    def page(self, st, l, phi, q):
        R = self.R
        st.assume(ge0(q), lt(q, seqlen(R.P)))
        self.sp.saturate(st, [R.listed(q), R.pa(q), mk("at", R.P, q)])
        n = seqlen(R.ids(q))
        ps = self.pieces(st, l, phi)
        m = self.matches(st, q)
        if not ps:
            self.req(st, bor(neg(R.listed(q)), eq(n, ZERO), neg(m)), "a page is left out although it holds matching entities")
            return
        if len(ps) != 1 or ps[0][0] != "push":
            self.req(st, FALSE, "a page is listed twice")
            return
        if self.req(st, le(ONE, n), "a page without entities is listed"):
            self.sp.saturate(st, [R.listed(q), R.pa(q)])
        self.req(st, m, "a page of a set without the queried types is listed")
        self.viewof(st, ps[0][1], q, "a listed page")

    def first(self, st, r, V):
        c = self.c
        fs, fv, fc, fp, fq, fw, fe = c.fields()
        self.req(st, B(st.norm(getf(r, fs)) is self.m.ref), "the iterator refers to another store")
        self.req(st, eq(getf(r, fp), ZERO), "the iteration does not start at the first page")
        it = getf(r, fc)
        self.req(st, eq(getf(it, fe), ZERO), "the iteration does not start at the first entity")
        if st.decide(le(ONE, seqlen(V))):
            w = self.eng.at(st, V, ZERO)
            for f in (c.fptrs, c.fcount, c.fids):
                self.req(st, same(st, getf(getf(it, fw), f), getf(w, f)), "the iteration does not start with the first page")
        else:
            self.req(st, eq(getf(getf(it, fw), c.fcount), ZERO), "something is iterated over although no page is listed")

    def size(self, w):
        return getf(w, self.c.fcount)

    def counted(self, st, l, n, lb, nb):
        """n - nb is the number of entities of what l has after lb"""
        l, n = st.norm(l), st.norm(n)
        for p in self.pieces(st, l, lb)[::-1]:
            if p[0] == "push":
                n = st.norm(sub(n, self.size(p[1])))
                continue
            rec, phi = p[1], p[2]
            ns = [a for a in atoms_in(n) if a.op == "phi" and a.a[0] == rec.uid]
            if len(ns) != 1:
                if lb is None and self.summed(st, l, n):
                    return
                self.req(st, FALSE, "the number of items is not counted along with the pages: " + str(show(n))[:200], self.crule)
                return
            rest = st.norm(sub(n, ns[0]))
            for v, vs in self.variants(rec):
                self.sp.cases(self.eng, vs, lambda z: self.counted(z, self.after(v, phi), self.after(v, ns[0]), phi, ns[0]))
            n = st.norm(add(rest, rec.v0[ns[0].a[1]]))
        self.req(st, eq(n, ZERO if nb is None else nb), "the number of items is not that of the pages listed", self.crule)

    def summed(self, st, l, n):
        """n is the sum over the list, in a loop of its own"""
        if n.op != "phi":
            return False
        rec = engine_.LOOPS[n.a[0]]
        kt = mk("k", rec.uid, *rec.ks)
        for v, vs in self.variants(rec):
            d = vs.norm(sub(self.after(v, n), n))
            self.req(vs, eq(d, self.size(self.eng.at(vs, vs.norm(l), kt))), "the number of items is not that of the pages listed", self.crule)
        self.req(st, eq(rec.v0[n.a[1]], ZERO), "the number of items is not that of the pages listed", self.crule)
        self.req(st, eq(kt, seqlen(l)), "the number of items is not that of the pages listed", self.crule)
        return True


class StartRanged(Start):
    """lists of ranges and of the page of each"""

    def __init__(self, sp, rule, crule, c, fn, tys, args, nlists):
        super().__init__(sp, rule, c, fn, tys, args)
        self.crule = crule

    def run(self):
        for x, r in self.results():
            self.sp.cases(self.eng, x.copy(), lambda st: self.one(st, x, r))

    def one(self, st, x, r):
        if x.kind != "return":
            self.req(st, FALSE, f"ends by {x.kind} ({x.why})")
            return
        r, c = st.norm(r), self.c
        c.extra(mk("init", "it"))
        fr, fv, fp, fo = c.names()
        Rg, V = self.behind(st, getf(r, fr)), self.behind(st, getf(r, fv))
        for b, what in ((getf(r, fp), "range"), (getf(r, fo), "entity of the range")):
            self.req(st, eq(b, ZERO), f"the iteration does not start at the first {what}")
        self.table(st, r)
        pr, pv = self.pieces(st, Rg, None), self.pieces(st, V, None)
        if not pr and not pv:
            self.nothing(st, r)
            return
        if not (len(pr) == len(pv) == 1 and pr[0][0] == pv[0][0] == "loop" and pr[0][1] is pv[0][1]):
            self.req(st, FALSE, "the ranges and their pages are not listed together")
            return
        self.ranges(st, r, pr[0][1], pr[0][2], pv[0][2])

    def pushed(self, z, v, pr, pv):
        """the range and view listed in an iteration"""
        a, b = self.pieces(z, self.after(v, pr), pr), self.pieces(z, self.after(v, pv), pv)
        if not a and not b:
            return None
        if not (len(a) == len(b) == 1 and a[0][0] == b[0][0] == "push"):
            self.req(z, FALSE, "ranges and their pages are not listed one with the other")
            raise Contradiction()
        return a[0][1], b[0][1]


class StartListed(StartRanged):
    def __init__(self, sp, rule):
        super().__init__(sp, rule, rule, Listed(sp), "entity_component_query_iter", ["T"], [sref("list"), sref("q")], 2)
        m, c = self.m, self.c
        n = seqlen(LIST)

        def issued(st, atoms):
            for t in atoms:
                if t.op == "at" and t.a[0] is LIST and st.known(lt(t.a[1], n)) is True:
                    for b in m.issued(getf(t, c.fid), getf(t, c.fver)):
                        st.assume(b)
        sp.axioms = sp.axioms + [issued]

    def prepare(self, st):
        self.sp.saturate(st)

    def table(self, st, r):
        c = self.c
        self.req(st, B(st.norm(getf(r, c.flist)) is sref("list")), "another list of entities is iterated over")
        self.req(st, B(st.norm(getf(r, c.fptr)) is st.norm(c.eip)), "another table of indices is used")

    def nothing(self, st, r):
        self.req(st, FALSE, "no entity is ever listed")

    def good(self, st, j):
        """the j-th handle is alive and has the types asked for"""
        m, R, c = self.m, self.R, self.c
        e = mk("at", LIST, j)
        i, v = getf(e, c.fid), getf(e, c.fver)
        return band(m.alive(i), eq(m.ver(i), v), R.HB(i), self.matches(st, st.norm(R.EP(i)))), i

    def ranges(self, st, r, rec, pr, pv):
        n = seqlen(LIST)
        # where the loop is: starts at 0, ends at the end, and is where the ranges start
        k = mk("k", rec.uid, *rec.ks)
        cand = []
        for name in rec.mods:
            p = st.norm(rec.mods[name])
            if st.known(eq(rec.v0[name], ZERO)) is True and st.known(le(n, p)) is True:
                cand.append((name, p))
        if len(cand) != 1:
            self.req(st, FALSE, "the list is not gone through from its start to its end")
            return
        name, at = cand[0]
        for v, vs in self.variants(rec):
            self.sp.cases(self.eng, vs, lambda z: self.piece(z, v, pr, pv, at, name))

    def piece(self, z, v, pr, pv, at, name):
        R, c = self.R, self.c
        nxt = at
        for loc, val in v["vals"].items():
            if engine_.locname(loc) == name:
                nxt = z.norm(val)
        n = seqlen(LIST)
        z.assume(lt(at, n))
        g, i = self.good(z, at)
        self.sp.saturate(z, [g])
        p = self.pushed(z, v, pr, pv)
        if p is None:
            self.req(z, eq(nxt, add(at, ONE)), "a handle is passed over without being looked at")
            g, i = self.good(z, at)
            self.req(z, neg(g), "a live handle with the queried types is left out")
            return
        a, b = getf(p[0], "start"), getf(p[0], "end")
        self.req(z, eq(a, at), "a range does not start where the last one ended")
        self.req(z, eq(b, nxt), "handles are left out after a range, or listed again")
        self.req(z, lt(a, b), "a range is empty")
        self.req(z, le(b, n), "a range goes beyond the list")
        g, i = self.good(z, at)
        if not self.req(z, g, "a handle is listed that is not alive or lacks the queried types"):
            return
        q = z.norm(R.EP(i))
        y = z.copy()
        self.viewof(z, p[1], q, "a range")
        # any other handle of the range
        j = mk("init", "any.j")
        y.assume(lt(at, j), lt(j, nxt))

        def other(w):
            ks = set()
            for e in v["ev"]:
                if e[0] == "loop":
                    for t in self.index(w, e[1]):
                        ks.add(t)
            for e, x in ks:
                for b in everyiter([e], {}, [w.norm(x)]):
                    w.assume(b)
            g, i2 = self.good(w, j)
            self.sp.saturate(w, [g])
            w.facts.propagate()
            g, i2 = self.good(w, j)
            self.req(w, g, "a handle within a range is not alive or lacks the queried types")
            self.req(w, eq(R.EP(i2), q), "a handle within a range is in another page")

        def index(w, rec2):
            """the iterations of a loop that look at the j-th handle"""
            kt = mk("k", rec2.uid, *rec2.ks)
            out = set()
            for v2 in rec2.variants:
                for f in v2["facts"]:
                    for t in atoms_in(f):
                        if t.op == "at" and t.a[0] is LIST and contains(t.a[1], kt):
                            cc, d = parts(t.a[1])
                            s = d.get((kt,))
                            if s in (1, -1):
                                out.add(scale(sub(j, sub(t.a[1], scale(kt, s))), s))
            return out
        self.index = lambda w, rec2: [(e, x) for e in v["ev"] if e[0] == "loop" and e[1] is rec2 for x in index(w, rec2)]
        self.sp.cases(self.eng, y, other)


class StartOrdered(StartRanged):
    """the members of a group from its head on, each with the one it links to next

    A position of the loop stands for the members before it; every iteration adds the
    slots of exactly the members it moves past that match, in order."""
    otypes = ("TagContainer",)

    def __init__(self, sp, rule, crule):
        super().__init__(sp, rule, crule, Ordered(sp), "ordered_query_iter", ["O", "T"], [sref("q")], 2)
        from store import Orders
        self.o = Orders(sp, self.m)
        self.eng.sorted.add(self.o.ids)
        sp.axioms = sp.axioms + self.o.axioms()
        self.extra = self.o.base()
        self.head = sp.fn("Store", "get_first_entity_ordered_by")

    def table(self, st, r):
        self.req(st, B(st.norm(getf(r, self.c.fst)) is self.m.ref), "the iterator refers to another store")

    def heads(self, st):
        """what get_first_entity_ordered_by says in this state"""
        y = st.copy()
        for x, r in self.sp.call(self.eng, y, self.head["i"], [self.m.ref], tys=["O"]):
            if x.kind != "return":
                continue
            try:
                self.sp.saturate(x)
            except Contradiction:
                continue
            yield x, x.norm(r)

    def nothing(self, st, r):
        self.req(st, eq(getf(r, self.c.flen), ZERO), "the number of items is not that of the ranges", self.crule)
        for x, h in self.heads(st):
            self.req(x, B(h.op == "S" and h.a[1] == "None"), "nothing is iterated over although the group has members")

    def match(self, st, x):
        R = self.R
        return band(R.HB(x), self.matches(st, st.norm(R.EP(x))))

    def live(self, st, x):
        """positions of the loop are members, so alive, or past the end"""
        st.assume(bor(eq(x, NULLID), band(self.m.alive(x), lt(x, self.m.cap))))

    def ranges(self, st, r, rec, pr, pv):
        o = self.o
        k = mk("k", rec.uid, *rec.ks)
        cand = []
        for name in rec.mods:
            if name in rec.ind:
                continue
            p = rec.mods[name]
            if st.known(eq(p, NULLID)) is True:
                cand.append((name, p))
        if len(cand) != 1:
            self.req(st, FALSE, "the members are not gone through to the last")
            return
        name, at = cand[0]
        v0 = st.norm(rec.v0[name])
        if v0.op != "at" or v0.a[0] is not o.head:
            self.req(st, FALSE, "the members are not gone through from the first: " + str(show(v0))[:200])
            return
        g = v0.a[1]
        for x, h in self.heads(st):
            if h.op == "S" and h.a[1] == "Some":
                self.req(x, eq(getf(getf(h, "0"), self.c.fid), v0), "the members gone through are not the group's")
            else:
                self.req(x, eq(v0, NULLID), "a group without members is gone through")
        self.sp.notes.append("cursor") if False else None
        for v, vs in self.variants(rec):
            self.sp.cases(self.eng, vs, lambda z: self.piece(z, v, pr, pv, at, name, g))
        self.counted(st, self.c, rec, pr, getf(r, self.c.flen))

    def counted(self, st, c, rec, pr, n):
        n = st.norm(n)
        ns = [a for a in atoms_in(n) if a.op == "phi" and a.a[0] == rec.uid]
        if len(ns) != 1 or ns[0] is not n:
            self.req(st, FALSE, "the number of items is not counted along with the ranges", self.crule)
            return
        self.req(st, eq(rec.v0[n.a[1]], ZERO), "the number of items is not that of the ranges", self.crule)
        for v, vs in self.variants(rec):
            def chk(z):
                d = sub(self.after(v, n), n)
                ps = self.pieces(z, self.after(v, pr), pr)
                w = ZERO
                for p in ps:
                    if p[0] != "push":
                        self.req(z, FALSE, "ranges are not listed one by one", self.crule)
                        return
                    w = add(w, sub(getf(p[1], "end"), getf(p[1], "start")))
                self.req(z, eq(d, w), "the number of items is not that of the ranges", self.crule)
            self.sp.cases(self.eng, vs, chk)

    def piece(self, z, v, pr, pv, at, name, g):
        R, o = self.R, self.o
        nx = lambda x: mk("mem", mk("at", o.fwd, g), scale(x, 4))
        self.live(z, at)
        z.facts.propagate()
        self.sp.saturate(z)
        if not self.req(z, neg(eq(at, NULLID)), "the end of the group is looked at as a member"):
            return
        self.sp.saturate(z, [self.match(z, at)])
        nxt = self.after(v, at, True)
        p = self.pushed(z, v, pr, pv)
        if p is None:
            self.req(z, eq(nxt, nx(at)), "a member is passed over without being looked at, or one is looked at again")
            self.req(z, neg(self.match(z, at)), "a member with the queried types is left out")
            return
        a, b = getf(p[0], "start"), getf(p[0], "end")
        if not self.req(z, self.match(z, at), "a member is listed without the queried types"):
            return
        self.sp.saturate(z, [R.EP(at), R.EI(at)])
        q = z.norm(R.EP(at))
        self.req(z, eq(a, R.EI(at)), "a range does not start at the member's slot")
        y = z.copy()
        self.viewof(y, p[1], q, "a range")
        if z.known(eq(nxt, nx(at))) is True:
            self.req(z, eq(b, add(a, ONE)), "a range holds more than the member it is for")
            return
        if nxt.op != "phi":
            self.req(z, FALSE, "members are left out after a range: " + str(show(nxt))[:200])
            return
        rec = engine_.LOOPS[nxt.a[0]]
        kt = mk("k", rec.uid, *rec.ks)
        self.req(z, eq(rec.v0[nxt.a[1]], nx(at)), "members are left out within a range")
        self.req(z, eq(b, add(add(a, ONE), kt)), "a range is not as long as the number of members in it")
        for v2, vs in self.variants(rec):
            def inner(w):
                w.assume(*[f for f in (self.m.alive(at), neg(eq(at, NULLID)))])
                self.live(w, nxt)
                w.facts.propagate()
                self.sp.saturate(w)
                self.req(w, neg(eq(nxt, NULLID)), "the end of the group is looked at as a member")
                self.req(w, eq(self.after(v2, nxt), nx(nxt)), "members are left out within a range")
                if not self.req(w, R.HB(nxt), "a member without components is listed"):
                    return
                self.req(w, eq(R.EP(nxt), R.EP(at)), "a member of another page is listed in a range")
                self.req(w, eq(R.EI(nxt), add(add(R.EI(at), ONE), kt)), "a member is listed out of its slot")
            self.sp.cases(self.eng, vs, inner)


# ---------------------------------------------------------------- accesses
def access(sp, rule):
    """a query access does with each of its tuples what that tuple's functions do"""
    T_ = "component_tuple::ComponentTuple::"
    impls = {}
    for l in sp.p.fns.values():
        for f in l:
            if (f.get("trait") or "").endswith("ComponentQueryAccess") and "i" in f:
                impls.setdefault(f["n"].rsplit("::", 1)[0], {})[f["n"].split("::")[-1]] = f
    if len(impls) < 3:
        sp.violate(rule, f"{len(impls)} implementations of ComponentQueryAccess")
    fdata = sp.f("ArchetypeDataPage", "components_data_ptr")
    for impl, fs in sorted(impls.items()):
        for m in ("is_archetype_include_types", "get_offsets", "get_ptrs", "add_to_ptrs", "ptrs_to_refs", "get_refs"):
            if m not in fs:
                raise Missing(f"{impl}::{m}")
            sp.guard(composed, sp, rule, impl, m, fs[m], fdata)


def composed(sp, rule, impl, m, f, fdata):
    names = [x for x in f["g"] if not x.startswith("'")]
    n = len(names)
    sp.entry(impl.split(" as ")[0].split("::")[-1].rstrip(">") + "::" + m)
    eng = sp.engine()
    prepare(sp, eng)
    hs = eng.handlers
    for k, h in list(hs.items()):
        if k.startswith(Q_):
            hs["component_tuple::ComponentTuple::" + k.split("::")[-1]] = h
            hs.pop(k)
    T_ = "component_tuple::ComponentTuple::"
    hs[T_ + "get_offsets_unchecked"] = hs.pop(T_ + "get_offsets")
    for k in ("get_ptrs", "add_to_ptrs", "ptrs_to_refs", "get_refs"):
        hs[T_ + k + "_mut"] = hs[T_ + k]
    a = [mk("init", f"a{i}") for i in range(3)]
    args = [mk("ref", ("P", f"a{i}"), ()) if sp.p.tys[x["t"]]["k"] == "ref" else a[i] for i, x in enumerate(f["sig"]["in"])]
    parts_ = lambda v: [v] if n == 1 else [getf(v, str(k)) for k in range(n)]
    data = lambda v: getf(v, fdata)
    if m == "get_offsets":
        want = [mk("offs", t, keyof(a[0]), a[1]) for t in names]
    elif m == "get_ptrs":
        want = [mk("qptrs", data(a[0]), o) for o in parts_(a[1])]
    elif m == "add_to_ptrs":
        want = [mk("qat", o, a[1]) for o in parts_(a[0])]
    elif m == "ptrs_to_refs":
        want = [mk("qrefs", o) for o in parts_(a[0])]
    elif m == "get_refs":
        want = [mk("qrefs", mk("qat", mk("qptrs", data(a[0]), o), a[1])) for o in parts_(a[2])]
    else:
        want = None
    for y, r in sp.call(eng, sp.state(), f["i"], args, tys=names):
        sp.entries[sp.cur]["paths"] += 1

        def chk(z):
            if y.kind != "return":
                sp.violate(rule, f"{m} ends by {y.kind} ({y.why})", y)
                return
            if want is None:
                w = band(*[mk("pred", "subset", mk("stup", t), keyof(a[0])) for t in names])
                sp.require(z, band(bor(neg(r), w), bor(neg(w), r)), rule, "a set is said to have the queried types when it lacks one, or the other way round")
                return
            got = parts_(z.norm(r))
            for k in range(n):
                sp.require(z, B(z.norm(got[k]) is z.norm(want[k])), rule, f"the part of {names[k]} is {str(show(z.norm(got[k])))[:200]}")
            sp.require(z, B(not list(z.logs())), rule, "memory is written to")
        sp.cases(eng, y, chk)
