"""C02: operations given a dead handle neither read nor change anything.

Every function reachable by users on Store and ResourceStore that takes an Entity is
analysed with a handle that was issued before and is dead (its version differs from
the recorded one, or the alive bit of its id is off), everything else arbitrary. On
every path: no effect on memory of the store, no change of the store value, no call
to component code with store data, and the result is the constant "nothing" (None,
false, unit) or a panic. Functions with two handles are analysed with each of them
dead in turn.
"""
from spec import *
from store import StoreModel

ASSUMPTIONS = ["debug assertions are on", "handles are used with the store that issued them", "versions do not wrap around"]
FLOORS = {"entries": 18, "C02-effect": 20, "C02-result": 16}
EFFECTS = ("w", "bit", "fill", "cp", "free", "loop")


def entries(sp):
    """user-callable functions taking an Entity: (name, unit, types of the arguments)"""
    out = []
    ent = sp.adt("Entity")["n"]
    for n, l in sorted(sp.p.fns.items()):
        for f in l:
            if "i" not in f or "sig" not in f or f.get("self") is None:
                continue
            t = sp.p.tys[f["self"]]
            short = (t.get("n") or "").split("::")[-1]
            if short not in ("Store", "ResourceStore"):
                continue
            if not (f.get("exported") or " as std::ops::" in f["n"]):
                continue
            ins = [sp.p.tys[x["t"]] for x in f["sig"]["in"]]
            if any(x.get("n") == ent for x in ins):
                out.append((short, f, ins))
    return out


def run(sp):
    ents = entries(sp)
    for short, f, ins in ents:
        sp.guard(one, sp, short, f, ins)


def one(sp, short, f, ins):
    m = StoreModel(sp, "s", short)
    sp.axioms = m.axioms()
    ent = sp.adt("Entity")["n"]
    slots = [i for i, t in enumerate(ins) if t.get("n") == ent]
    for dead in slots:
        sp.entry(f"{short}::{f['n'].split('::')[-1]}" + (f" (argument {dead})" if len(slots) > 1 else ""))
        eng = sp.engine()
        args, facts = [], m.base()
        for i, t in enumerate(ins):
            if i in slots:
                e, ei, ev = m.entity(f"h{i}")
                facts += m.issued(ei, ev)
                if i == dead:
                    facts.append(bor(neg(m.alive(ei)), neg(eq(m.ver(ei), ev))))
                args.append(e)
            elif t["k"] == "ref" and i == 0:
                args.append(m.ref)
            elif t["k"] == "ref":
                args.append(mk("ref", ("P", f"a{i}"), ()))
            else:
                args.append(mk("init", f"a{i}"))
        st = sp.state(facts)
        for x, r in sp.call(eng, st, f["i"], args):
            sp.cases(eng, x, lambda s, r=r: after(sp, m, s, r))


def own(t):
    """bases of buffers made on this very path"""
    return t.op == "new" if isinstance(t, T) else False


def after(sp, m, s, r):
    if s.kind not in ("return", "panic"):
        sp.violate("C02-path", f"{s.kind}: {s.why}", s)
        return
    v = s.norm(s.mem.get(m.root, m.s))
    sp.require(s, B(v is m.s), "C02-effect", f"the store is changed (it ends as {str(show(v))[:300]})")
    for e in s.logs():
        if e[0] in EFFECTS:
            if e[0] == "loop" and not touches(e[1], own):
                continue
            if e[0] != "loop" and own(e[1]):
                continue
            sp.require(s, FALSE, "C02-effect", f"memory of the store is changed: {e[0]}")
    for e in s.events("call"):
        if any(isinstance(a, T) and m.s in atoms_in(a) for x in e[1:] if isinstance(x, (tuple, list)) for a in x if isinstance(a, T)):
            sp.require(s, FALSE, "C02-effect", f"component code is given data of the store: {e[1]}")
    if s.kind == "return":
        sp.require(s, nothing(r), "C02-result", f"the result is {str(show(r))[:200]}, not nothing")
    else:
        sp.obl += 1
        sp.obl_by["C02-panic"] = sp.obl_by.get("C02-panic", 0) + 1


def touches(rec, own):
    for v in rec.variants:
        for e in v["log"]:
            if e[0] in ("w", "bit", "fill", "cp", "free") and not own(e[1]):
                return True
    return False


def nothing(r):
    if r is None or r is FALSE:
        return TRUE
    if r.op == "S":
        return B(r.a[1] == "None" or (r.a[0] == "tup" and not r.a[2]) or show(r) in ("tup{}", "Option::None{}"))
    if r.op in ("and", "or", "not", "eq0", "ge0", "bit", "true", "false"):
        return neg(r)
    return FALSE
