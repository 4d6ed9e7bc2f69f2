"""Frame rule: an operation leaves the tables of one part of the store alone.

Every function users can call on the type (found from the compiler's visibility
facts, not from a list) other than the ones named is analysed on an arbitrary store,
and no path of it may change the part's value or write to memory it owns. Methods of
the other parts are not looked into: they are only ever given their own data.
"""
from spec import *
from store import StoreModel

EFFECTS = ("w", "bit", "fill", "cp", "free", "loop")
PARTS = {"EntitiesContainer": "Store.entities_container", "ArchetypesContainer": "Store.archetypes_container",
         "TagContainer": "Store.tag_container", "OrderGroupContainer": "Store.order_group_container"}


def methods(sp, short="Store"):
    """(record, argument types) of every function users can call on the type"""
    out = []
    for n, l in sorted(sp.p.fns.items()):
        for f in l:
            if "i" not in f or "sig" not in f or f.get("self") is None:
                continue
            t = sp.p.tys[f["self"]]
            if (t.get("n") or "").split("::")[-1] != short:
                continue
            if not (f.get("exported") or " as std::ops::Index" in f["n"]):
                continue
            ins = [sp.p.tys[x["t"]] for x in f["sig"]["in"]]
            if not ins or ins[0].get("k") != "ref":
                continue
            if sp.p.tys[ins[0]["t"]].get("n", "").split("::")[-1] != short:
                continue
            out.append((f, ins))
    return out


def arguments(sp, m, ins):
    """arbitrary arguments: (values, facts)"""
    ent = sp.adt("Entity")["n"]
    args, facts = [], []
    for i, t in enumerate(ins):
        if i == 0:
            args.append(m.ref)
        elif t.get("n") == ent:
            e, ei, ev = m.entity(f"h{i}")
            facts += m.issued(ei, ev)
            args.append(e)
        elif t["k"] == "ref":
            args.append(mk("ref", ("P", f"a{i}"), ()))
        else:
            args.append(mk("init", f"a{i}"))
    return args, facts


def rooted(t, part):
    """t is reached through the value part"""
    seen = set()
    work = [t]
    while work:
        x = work.pop()
        if x is part:
            return True
        if x in seen:
            continue
        seen.add(x)
        work.extend(children(x))
    return False


def effects(st):
    out = []

    def walk(l):
        for e in l:
            if e[0] == "loop":
                for v in e[1].variants:
                    walk(v["log"])
            elif e[0] in EFFECTS:
                out.append(e)
    walk(st.logs())
    return out


def frame(sp, rule, fields, skip, short="Store", extra=()):
    for f, ins in methods(sp, short):
        name = f["n"].split("::")[-1]
        if name in skip:
            continue
        mine = {x for x, _ in fields}
        ot = [t for t, p in PARTS.items() if p not in mine and t != "EntitiesContainer"]
        ot += ["ArchetypeBuilder", "Archetype", "ArchetypeLayout", "ArchetypeDataPage", "ArchetypeDataPageView", "ArchetypesUnion"]

        def one(f=f, ins=ins, name=name):
            sp.entry(f"{short}::{name} (frame)")
            m = StoreModel(sp, "s", short)
            sp.axioms = m.axioms()
            eng = sp.engine(otypes=ot)
            args, facts = arguments(sp, m, ins)
            st = sp.state(m.base() + facts + list(extra))
            parts = [(sp.fld(m.s, p), what) for p, what in fields]
            for x, r in sp.call(eng, st, f["i"], args):
                if x.kind not in ("return", "panic"):
                    sp.violate(rule, f"{x.kind}: {x.why}", x)
                    continue
                v = x.norm(x.mem.get(m.root, m.s))
                for (p0, what), (path, _) in zip(parts, fields):
                    sp.require(x, B(x.norm(sp.fld(v, path)) is x.norm(p0)), rule, f"the {what} tables are changed")
                    for e in effects(x):
                        if isinstance(e[1], T) and rooted(x.norm(e[1]), p0):
                            sp.require(x, FALSE, rule, f"memory of the {what} tables is changed")
        sp.guard(one)
