"""Types that own raw buffers, found from the types and the call graph."""
import re
from c20 import graph

ALLOC = re.compile(r"(^|::)(alloc|alloc_zeroed|realloc|dealloc|__rust_(alloc|dealloc|realloc|alloc_zeroed))$")


def pointers(p, adt):
    """fields of the type that hold raw pointers, directly or in a container"""
    def has(t, seen):
        if t in seen:
            return False
        seen.add(t)
        ty = p.tys[t]
        if ty["k"] == "ptr":
            return True
        if ty.get("n") in p.adts:
            return False
        return any(has(x, seen) for x in (ty.get("a") or []) if isinstance(x, int)) or \
            (ty["k"] in ("array", "slice") and has(ty["t"], seen)) or (ty["k"] == "tuple" and any(has(x, seen) for x in ty.get("ts", [])))

    return [f["n"] for v in adt["v"] for f in v["f"] if has(f["t"], set())]


def short(n):
    return n.split("::")[-1]


def selfname(p, f):
    if f.get("self") is None:
        return None
    return p.tys[f["self"]].get("n")


def own_fns(p, name):
    return [f for l in p.fns.values() for f in l if "i" in f and selfname(p, f) == name]


def find(p, g):
    """{type: [its functions]} of the types that allocate or release memory they point to"""
    by = {}
    for l in p.fns.values():
        for f in l:
            if "i" in f:
                by[f["i"]] = f
    holders = {n: pointers(p, a) for n, a in p.adts.items()}
    holders = {n: fs for n, fs in holders.items() if fs}
    out = {}
    for n in sorted(holders):
        fns = own_fns(p, n)
        seen, work, hit = set(), [f["i"] for f in fns], False
        while work:
            u = work.pop()
            if u in seen:
                continue
            seen.add(u)
            f = by.get(u)
            if f is not None and selfname(p, f) in holders and selfname(p, f) != n:
                continue
            if ALLOC.search(p.units[u]["n"]) and u not in by:
                hit = True
                break
            work += [m for m, _ in g.get(u, ())]
        if hit:
            out[n] = fns
    return out


def interface(p, g, name, fns):
    """the functions of a type that something other than its own functions can call"""
    root = lambda n: n.split("::{closure")[0]
    mine = {f["n"] for f in fns}
    ext = set()
    for u, s in g.items():
        if root(p.units[u]["n"]) in mine:
            continue
        for m, _ in s:
            if "{closure" not in p.units[m]["n"]:
                ext.add(p.units[m]["n"])
    out = []
    for f in fns:
        if f["n"].split("::")[-1] == "drop" or " as std::fmt" in f["n"]:
            continue
        if f.get("exported") or f["n"] in ext or f["n"].startswith("<"):
            out.append(f)
    return out


def reaches(p, g, start):
    """does the allocator get called from this unit"""
    seen, work = set(), [start]
    while work:
        u = work.pop()
        if u in seen:
            continue
        seen.add(u)
        if p.units[u]["n"].startswith(("std::alloc::alloc", "std::alloc::dealloc", "std::alloc::realloc", "alloc::alloc::")):
            return True
        work += [m for m, _ in g.get(u, ())]
    return False
