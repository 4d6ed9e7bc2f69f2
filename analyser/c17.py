"""C17: stores, resource stores and query iterators are neither Send nor Sync.

Compile-fail witnesses: for each such type (with components and resources that are
themselves Send and Sync) `need_send::<T>()` and `need_sync::<T>()` must be
rejected with E0277, and the twin that only names the type must be accepted. The
types are enumerated from the type-checked crate: every exported type that
implements Iterator, and the two stores; a type the table does not know is
reported, so that a new iterator cannot be left out. A second rule asks the
compiler's own auto-trait solver for each of these types with abstract parameters,
and lists every `unsafe impl Send/Sync` of the crate.
"""
from spec import *
import witness

T = {
    "Store": ["Store"],
    "ResourceStore": ["ResourceStore<u32>", "ResourceStore<String>"],
    "query::component::ComponentsQueryIter": ["query::component::ComponentsQueryIter<'static, {Q}>"],
    "query::component::WithEntitiesIter": ["query::component::WithEntitiesIter<'static, {Q}>"],
    "query::component::FilterTagIter": ["query::component::FilterTagIter<'static, {Q}>"],
    "query::component_page_iter::ComponentPageIter": ["query::component_page_iter::ComponentPageIter<'static, {Q}>"],
    "query::entity_component::EntityComponentQueryIter": ["EntityComponentQueryIter<'static, {Q}>"],
    "query::entity_component::WithEntitiesIter": ["query::entity_component::WithEntitiesIter<'static, {Q}>"],
    "query::ordered_component::OrderedComponentQueryIter": ["OrderedComponentQueryIter<'static, {Q}>"],
    "query::ordered_component::WithEntitiesIter": ["query::ordered_component::WithEntitiesIter<'static, {Q}>"],
}
Q = ["ReadonlyAccess<A>", "WriteAccess<(A, B)>", "ReadWriteAccess<A, B>"]
FLOORS = {"C17-send": 26, "C17-sync": 26, "C17-auto": 10}


def run(sp):
    cases = []
    iters = set()
    for im in sp.p.f["impls"]:
        if im.get("tn") == "std::iter::Iterator":
            s = sp.p.tys[im["self"]]
            if s.get("n"):
                iters.add(s["n"])
    for n in sorted(iters):
        a = sp.p.adts.get(n)
        if a and a["exported"] and n not in T:
            sp.entry(n)
            if a["send"] or a["sync"]:
                sp.violate("C17-auto", f"{n} is an exported iterator that is Send or Sync")
    for n, insts in T.items():
        short = [x for x in sp.p.adts if x == n or x.endswith("::" + n)]
        if len(short) != 1:
            if n.startswith("query::"):
                continue        # gone or private: the witness below could not name it
            raise Missing("type " + n)
        a = sp.p.adts[short[0]]
        sp.entry(n)
        sp.obl += 1
        sp.obl_by["C17-auto"] = sp.obl_by.get("C17-auto", 0) + 1
        sp.entries[n]["obligations"] += 1
        for k in ("send", "sync"):
            if a[k]:
                sp.violate("C17-auto", f"{n} implements {k.capitalize()} ({a['at']})")
        if not a["exported"]:
            continue
        for i, inst in enumerate(insts):
            for j, q in enumerate(Q if "{Q}" in inst else [""]):
                ty = inst.replace("{Q}", q)
                cid = n.replace("::", "_") + f"_{i}{j}"
                for k in ("send", "sync"):
                    cases.append((f"{cid}_{k}", {"E0277"}, "C17-" + k, f"{ty} can be {'sent to' if k == 'send' else 'shared with'} another thread",
                                  f"fn f(t: {ty}) {{\n need_{k}::<{ty}>(); //!\n}}"))
    witness.decide(sp, "c17", cases)
