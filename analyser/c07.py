"""C07: growing past the initial capacity loses nothing and starts new ids clean.

Creating an entity, on every path (those that grow every table included), is composed
with what can be observed of an arbitrary other handle, component, tag type and order
group before and after; the facts about all tables up to the new capacity (nothing
recorded for ids not in use, one table per tag type and two per group, all noting the
same capacity) are shown preserved. Every access of every operation to a table made for
entities lies inside that table's buffer, whose size is taken from the code that
releases it.
"""
from spec import *
from store import *
from registry import *
import bounds
import c01
import c03
import c06
import c08
import c09
import c18
import frames
import queries

ASSUMPTIONS = ["debug assertions are on", "buffers are as big as the size they are released with (C18)", "fewer than 2^32-1 entities",
               "handles are used with the store that issued them"]
FLOORS = {"entries": 20, "C07-bounds": 100, "C01-inv-cap": 4, "C08-inv": 20, "C09-inv": 20, "C06-slot-owner": 20}
OPAQUE = ("ArchetypesContainer", "ArchetypeBuilder", "Archetype", "ArchetypeLayout", "ArchetypeDataPage", "ArchetypeDataPageView", "ArchetypesUnion")
OWN = ["Store.entity_to_page", "Store.entity_to_index_in_page", "Store.entity_has_archetype_bit_vec"]
CREATE = ("create_entity", "create_entity_with_archetype")


def liveness(sp):
    c01.history(sp, "Store", None, [("Store::create_entity", sp.unit("Store", "create_entity"), lambda m, eng: ([m.ref], None), "create")], [], [])


def tables(sp, rule, part, fields, ot):
    """accesses to the tables of tags or order groups"""
    for f, ins in frames.methods(sp):
        name = f["n"].split("::")[-1]
        if name.endswith("query_iter"):
            continue                                # C10 to C12

        def one(f=f, ins=ins, name=name):
            m = StoreModel(sp)
            t = part(sp, m)
            sp.axioms = m.axioms() + t.axioms()
            sp.entry(f"Store::{name} ({rule} tables)")
            b = bounds.Bounds(sp, "C07-bounds", m, fields, t.base())
            eng = sp.engine(otypes=ot)
            eng.sorted.add(t.ids)
            b.install(eng)
            args, fs = frames.arguments(sp, m, ins)
            sp.call(eng, sp.state(m.base() + t.base() + fs), f["i"], args)
            b.finish(eng)
        sp.guard(one)


def initialised(sp, name):
    """no word that nothing was written to is stored or decided on"""
    def one():
        m = StoreModel(sp)
        sp.axioms = m.axioms()
        sp.entry(f"Store::{name} (initialised)")
        eng = sp.engine(otypes=("TagContainer", "OrderGroupContainer") + OPAQUE)
        ins = next(ins for f, ins in frames.methods(sp) if f["n"].split("::")[-1] == name)
        args, fs = frames.arguments(sp, m, ins)
        for st, r in sp.call(eng, sp.state(m.base() + fs), sp.unit("Store", name), args):
            if st.kind != "return":
                continue

            def ok(z, r=r):
                used = [x for e in z.logs() if e[0] in ("w", "fill") for x in e[3:] if isinstance(x, T)] + list(z.facts.list) + [z.norm(r)]
                bad = [a for x in used for a in atoms_in(z.norm(x)) if a.op == "uninit"]
                sp.require(z, B(not bad), "C07-initialised", f"a word of {show(bad[0].a[0]) if bad else ''} is used before anything was written to it")
            sp.cases(eng, st, ok)
    sp.guard(one)


def registry(sp):
    """accesses to the tables that say where components are"""
    for f, ins in frames.methods(sp):
        name = f["n"].split("::")[-1]
        if name.endswith("query_iter"):
            continue                                # C10 to C12

        def one(f=f, ins=ins, name=name):
            m, R = c06.start(sp)
            sp.entry(f"Store::{name} (component tables)")
            b = bounds.Bounds(sp, "C07-bounds", m, OWN)
            eng = sp.engine(otypes=REST)
            queries.prepare(sp, eng)
            if name in c06.OPS:
                semantics(sp, eng)
            R.eng = eng
            b.install(eng)
            args, fs = frames.arguments(sp, m, ins)
            tys = None
            for n, *x in c06.entries(sp, m)[0]:
                if n == name:
                    args, fs, tys = x
            sp.call(eng, sp.state(m.base() + R.base() + fs), f["i"], args, tys=tys)
            b.finish(eng)
        sp.guard(one)


def run(sp):
    jobs = [(liveness, sp)]
    for n in CREATE:
        jobs.append((c08.one, sp, "Store::" + n, sp.unit("Store", n), "create" if n == CREATE[0] else "createwith", 0))
        for view in c09.VIEWS:
            if view != "reject":
                jobs.append((c09.one, sp, "Store::" + n, n, "create" if n == CREATE[0] else "createwith", "U", view))
    jobs.append((tables, sp, "tag", Tags, ["Store.tag_container"], ("OrderGroupContainer",) + OPAQUE))
    jobs.append((tables, sp, "order", Orders, ["Store.order_group_container", "Store.entities_container"], ("TagContainer",) + OPAQUE))
    jobs.append((registry, sp))
    jobs += c18.scenarios(sp, ("Store", "EntitiesContainer", "TagContainer", "OrderGroupContainer"))[0]
    sp.parallel(jobs)
    for n in CREATE:
        sp.guard(c06.operation, sp, n, c06.preserve)
        sp.guard(c03.operation, sp, n, c03.others)
        initialised(sp, n)
