"""C20: no operation's call depth grows with the amount of data.

Call graph of the whole crate over compiler-resolved callees (every body reachable
from it included, standard library bodies too): calls through a type parameter go
to every implementation of that trait method in the crate, a function or closure
whose address is taken counts as called where it is taken, and drop of a value
calls the drop code of everything it owns. Rule 1: no cycle goes through a function
of this crate. Rule 2: no type of this crate owns itself through a pointer
(dropping such a chain recurses once per element). Depth is then bounded by the
number of functions, whatever the data.
"""
from spec import *

FLOORS = {"C20-function": 300, "C20-type": 30, "C20-control": 5}
ASSUMPTIONS = ["standard library functions used have bounded depth (their own recursion, e.g. in sorting, is logarithmic)"]


def scc(nodes, succ):
    index, low, on, stack, out, cnt = {}, {}, set(), [], [], [0]
    for r in nodes:
        if r in index:
            continue
        work = [(r, iter(succ(r)))]
        index[r] = low[r] = cnt[0]; cnt[0] += 1
        stack.append(r); on.add(r)
        while work:
            n, it = work[-1]
            adv = False
            for m in it:
                if m not in index:
                    index[m] = low[m] = cnt[0]; cnt[0] += 1
                    stack.append(m); on.add(m)
                    work.append((m, iter(succ(m))))
                    adv = True
                    break
                if m in on:
                    low[n] = min(low[n], index[m])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[n])
            if low[n] == index[n]:
                c = []
                while True:
                    m = stack.pop(); on.discard(m); c.append(m)
                    if m == n:
                        break
                out.append(c)
    return out


def fnrefs(o, out):
    """every function constant in an operand, rvalue or terminator"""
    if isinstance(o, dict):
        if "fn" in o and isinstance(o["fn"], dict):
            out.append(o["fn"])
        if o.get("k") == "closure" or "closure" in o:
            out.append(o)
        for v in o.values():
            fnrefs(v, out)
    elif isinstance(o, list):
        for v in o:
            fnrefs(v, out)


def graph(p):
    """unit -> {(unit, where)}: instances, so that two users of one library function stay apart"""
    impls = {}
    byname = {}
    for u in p.units:
        byname.setdefault(u["n"], []).append(u["id"])
    for im in p.f["impls"]:
        if im.get("tn"):
            for it in im["items"]:
                impls.setdefault((im["tn"], it.split("::")[-1]), set()).add(it)
    tys = p.tys
    drops = {a["n"]: a.get("drop") for a in p.f["adts"]}
    memo = {}

    def parts(t, kinds, seen):
        """every type a value of type t owns (kinds 'drop') or names ('fn')"""
        if t in seen:
            return
        seen.add(t)
        ty = tys[t]
        if ty["k"] in ("ref", "ptr") and kinds == "drop":
            return
        a = p.adts.get(ty.get("n"))
        if a is not None and kinds == "drop":
            for v in a["v"]:
                for f in v["f"]:
                    parts(f["t"], kinds, seen)
        for x in owned(ty):
            parts(x, kinds, seen)

    def dropped(t):
        if t not in memo:
            seen = set()
            parts(t, "drop", seen)
            memo[t] = {drops[tys[x]["n"]] for x in seen if drops.get(tys[x].get("n"))}
        return memo[t]

    def called_inside(args):
        """closures and functions handed to something without a body here"""
        r = set()
        for a in args:
            if not isinstance(a, int):
                continue
            seen = set()
            parts(a, "fn", seen)
            for x in seen:
                if tys[x]["k"] in ("closure", "fndef"):
                    r |= set(byname.get(tys[x]["n"], ()))
        return r

    g = {}
    for u in p.units:
        b = u.get("body")
        s = g.setdefault(u["id"], set())
        if not b:
            continue
        for bl in b["blocks"]:
            t = bl["t"]
            at = t.get("at")
            if t["k"] == "drop":
                for d in dropped(t["p"]["t"]):
                    for i in byname.get(d, ()):
                        s.add((i, at))
            refs = []
            fnrefs(bl, refs)
            for f in refs:
                if f.get("i") is not None:
                    s.add((f["i"], at))
                    continue
                n = f.get("r") or f["n"]
                tgt = set()
                if f.get("trait") and f.get("m"):
                    for it in impls.get((f["trait"], f["m"]), ()):
                        tgt |= set(byname.get(it, ()))
                if not tgt:
                    tgt = set(byname.get(n, ())) if f.get("local") else set()
                if not f.get("local"):
                    tgt |= called_inside(f.get("a", []))
                    if "drop_glue" in n or n.startswith("std::mem::drop"):
                        for a in f.get("a", []):
                            if isinstance(a, int):
                                for d in dropped(a):
                                    tgt |= set(byname.get(d, ()))
                for i in tgt:
                    s.add((i, at))
            if t["k"] == "call" and t["f"].get("o") != "const":
                # through a function pointer: whatever the crate ever points to
                s.add(("pointer", at))
    return g


def owned(ty):
    r = [x for x in ty.get("a", []) if isinstance(x, int)] if isinstance(ty.get("a"), list) else []
    if isinstance(ty.get("t"), int):
        r.append(ty["t"])
    return r


def cycles(p):
    """(call cycles through local code, call edges, self-owning types)"""
    g = graph(p)
    byname = {u["id"]: u for u in p.units}

    def succ(n):
        return sorted({c for c, _ in g.get(n, ()) if c != "pointer"})
    bad = []
    for c in scc(sorted(g), succ):
        if len(c) > 1 or c[0] in succ(c[0]):
            mine = sorted({byname[n]["n"] for n in c if byname[n]["local"]})
            if mine:
                at = sorted({str(w) for n in c for m, w in g[n] if m in c and byname[n]["local"]})
                bad.append((mine, sorted({byname[n]["n"] for n in c}), at))
    own = {}
    for a in p.f["adts"]:
        s = own.setdefault(a["n"], set())

        def walk(t, depth=0):
            ty = p.tys[t]
            if depth > 12 or ty["k"] in ("ref", "ptr", "fn", "fndef"):
                return
            if ty.get("n") in p.adts:
                s.add(ty["n"])
            for x in owned(ty):
                walk(x, depth + 1)
        for v in a["v"]:
            for f in v["f"]:
                walk(f["t"])
    selfown = [sorted(c) for c in scc(sorted(own), lambda n: sorted(own.get(n, ()))) if len(c) > 1 or c[0] in own[c[0]]]
    pointers = sum(1 for n in g for m, _ in g[n] if m == "pointer" and byname[n]["local"])
    return bad, sum(len(v) for v in g.values()), selfown, len(own), pointers


def run(sp):
    p = sp.p
    bad, edges, selfown, ntypes, pointers = cycles(p)
    sp.entry("crate")
    nlocal = sum(1 for u in p.units if u["local"])
    for rule, n in (("C20-function", nlocal), ("C20-type", ntypes), ("C20-edge", edges)):
        sp.obl_by[rule] = n
        sp.obl += n
    sp.entries["crate"]["obligations"] = nlocal
    sp.inlined |= {u["id"] for u in p.units}
    sp.npaths = edges
    sp.notes.append(f"{len(p.units)} function instances, {edges} call edges, {pointers} calls through pointers in the crate")
    for mine, names, at in bad:
        sp.entry(mine[0])
        sp.violate("C20-recursion", f"recursion: {' -> '.join(names)}", where=", ".join(at))
    for c in selfown:
        sp.entry(c[0])
        sp.violate("C20-owning-cycle", f"the type owns itself: {' -> '.join(c)}")
    if pointers:
        sp.entry("crate")
        sp.violate("C20-pointer", "a call through a function pointer: its targets are not known")
    # the rules must see recursion where there is some
    bad, _, selfown, _, _ = cycles(sp.control("recursion.rs", "recursion"))
    seen = " ".join(n for m, _, _ in bad for n in m) + " ".join(n for c in selfown for n in c)
    sp.entry("control")
    for want in ("r_direct", "r_closure", "r_generic", "RIt", "RChain"):
        sp.obl += 1
        sp.obl_by["C20-control"] = sp.obl_by.get("C20-control", 0) + 1
        if want not in seen:
            sp.violate("control", f"the rule no longer reports the positive example {want}: {seen}")
    for no in ("ok_map", "ok_inner", "OkFlat"):
        if no in seen:
            sp.violate("control", f"the rule reports the negative example {no}")
