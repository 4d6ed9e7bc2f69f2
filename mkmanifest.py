#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below (kept by hand)."""
import json
ENG = "guarded-effect dataflow over rustc MIR (value numbering, trace partitioning, loop summaries), interprocedural"
CHECKS = {
 "C01": (ENG, "Every path of every operation, composed with is_alive before and after for an arbitrary issued handle; representation facts shown preserved. Assumes versions do not wrap around and debug assertions are on."),
 "C02": (ENG, "Every exported operation taking an entity handle, run on an arbitrary store with an arbitrary dead handle: no effect on any table, no value revealed. Assumes debug assertions on and handles issued by the same store."),
 "C03": (ENG, "The value of an arbitrary component of an arbitrary live entity is followed backwards through every write and copy of every operation, including those in loops, to the slot it was in before; tuple accessors of all twelve arities and the common-component tables are compared with what that walk uses. Assumes C04, C06, C18, C21 and debug assertions on."),
 "C04": (ENG, "The column-placing loop on an arbitrary set of types (running-end argument over its iterations), the tuple accessors of all arities, and the slot index of every access to page memory on every path of every operation against the capacity of the layout used. Query iterators' accesses are C10 to C12. Assumes overflow checks on."),
 "C05": (ENG, "The column-placing loop on an arbitrary set of types (offsets are multiples of alignments, by remainder arithmetic), the constant alignment of page memory, and the tuple accessors of all arities. Assumes the allocator honours the alignment asked for."),
 "C06": (ENG, "Every operation that writes the tables, on an arbitrary registry: slots, pages, page lists and free lists stay consistent, no two archetypes are one set; the reported set of an arbitrary entity composed with every operation. Assumes archetype functions are the set operations (C21) and debug assertions on."),
 "C07": (ENG, "Creating an entity, growth included, composed with everything observable of an arbitrary other handle, component, tag type and group; facts about all tables up to the new capacity shown preserved; every access of every operation to a per-entity table lies inside the buffer, sized by the code that releases it (which is shown to be the size allocated); no word is used before it is written. Assumes debug assertions on."),
 "C08": (ENG, "has_tag of an arbitrary live handle and arbitrary tag type composed with every operation before and after; the facts about tag tables shown preserved; every other operation shown to leave them alone."),
 "C09": (ENG, "The four order observers composed with every operation that touches order groups, for an arbitrary handle and group, against insertion into and removal from a sequence; list facts shown preserved. Assumes fewer than 2^32-1 entities."),
 "C10": (ENG, "The iterators of component queries, pairs and their with_entities forms as machines: every path of the constructors, next and len on an arbitrary iterator over an arbitrary registry, with a rank that every step lowers by exactly one (each remaining slot is yielded exactly once, none skipped, none repeated), coverage of the loops that list pages, and the components read at the yielded slot. Assumes C06 and C21."),
 "C11": (ENG, "Every path of the entity-list iterators on an arbitrary list position: which handles are skipped, which are yielded, what is read for them and how far the position moves. Assumes C06 and C21."),
 "C12": (ENG, "Every path of the ordered iterators on an arbitrary position in an arbitrary group: which members are skipped or yielded, what is read for them, and that each pass follows one forward link. Assumes C06, C09 and C21."),
 "C13": (ENG, "Every path of every with_entities iterator: the handle yielded against the slot of the components yielded with it, for component, entity-list and ordered queries. Assumes C06."),
 "C14": (ENG, "Every path of next and len of every exact-size iterator: len after a step that yields is one less, and is zero exactly when next yields nothing; constructors start with the sum the pages hold."),
 "C15": ("compile-fail witnesses with compiling twins, decided by rustc's type and borrow checker", "Every pair of accesses x every query kind as a program that must not compile. Nine pairs that today's API accepts are known findings."),
 "C16": ("compile-fail witnesses with compiling twins, and a rule over the regions of compiler-resolved signatures", "Every borrowed result x every invalidating operation as a program the borrow checker must reject. Safe programs only."),
 "C17": ("compile-fail witnesses with compiling twins, and the compiler's auto-trait facts", "Every exported store and iterator type must be neither Send nor Sync."),
 "C18": (ENG, "Every exported operation composed with full drop glue on an arbitrary value: each owned or new buffer is released exactly once with the size and alignment it was allocated with, never used afterwards, no zero-sized request, and owning values are never forgotten or duplicated behind the compiler's back. Release of buffers when a panic unwinds is not covered."),
 "C19": (ENG, "Indexing by an arbitrary live handle composed with create and release before and after; drop of the store drops an arbitrary slot's value exactly when it is filled; the value buffer covers the capacity; no other function ends or duplicates a value. Assumes debug assertions on and element types that are not zero-sized."),
 "C20": ("recursion (SCC) analysis of the compiler-resolved call graph of all instances, and of the ownership graph of types", "No call cycle through the crate's code and no self-owning type, so call depth is bounded independently of data. Trusts the depth of standard library functions."),
 "C21": (ENG, "Membership tests, builders, archetype construction, cloning and all twelve tuple arities on an arbitrary archetype and list, compared with the set operations; sets are followed through loops by induction over their iterations. Assumes equal ids mean equal types."),
 "C22": ("compile-fail witnesses with compiling twins, and a rule over the trait bounds of compiler-resolved impls", "Every kind of non-plain value x every way of storing it, every tuple arity, must be rejected. Safe programs only."),
 "C23": (ENG, "add_components and remove_components on an arbitrary entity compared member by member with set operations and, by following an arbitrary component's value backwards through all writes and copies, with the given and the old values; archetype, builder and tuple functions of all arities included. Assumes C04, C06, C18 and debug assertions on."),
 "C24": (ENG, "The value found for an arbitrary component of an arbitrary live entity after every operation is followed backwards to the same entity's component before it or to a value the caller passed; a new entity's components must end at a passed value. create_entity_with_archetype passes none: a known finding. Assumes C04, C06, C18 and debug assertions on."),
 "C25": (ENG, "Making the layout of an arbitrary set of types that fits a page: what its loops carry is compared by induction with the sum of sizes, the sum of alignments and the end of one padded row, and with that no panic or failing check is left on any path and there is room for one entity. Making archetypes (all tuple arities) and storing components in an arbitrary consistent store never end by a panic. Types of size zero are outside the property; a failing allocation is not considered."),
 "C26": (ENG, "Every exported method of the stores and every step of the query iterators on arbitrary states satisfying the facts C01, C06, C08 and C09 show, with arbitrary valid arguments: each path that panics, and each index, subtraction and other check the language makes, is shown impossible. Relies on C21 for archetype functions and C25 for sets that fit; counts and sizes are assumed not to exceed their types."),
 "C27": (ENG, "Every operation that issues or frees ids or places entities, on arbitrary states satisfying the facts C01 and C06 show: the queue of free ids is complete (inductive), the capacity changes only when every id is alive, and a component set is given another page only when an arbitrary one of its pages is full and none is free. Pages of the first component set are never handed to other sets."),
}
NA = {}
if __name__ == "__main__":
    import os
    here = os.path.dirname(os.path.abspath(__file__))
    ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
    checks = []
    na = []
    for i in ids:
        if i in CHECKS:
            t, n = CHECKS[i]
            checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                           "evidence_file": f"evidence/{i}.json", "technique": t, "level": "other", "level_note": n})
        else:
            na.append({"property": i, "reason": NA.get(i, "rule not built yet")})
    m = {"version": 1, "setup_cmd": "cd driver && cargo +nightly build --release --offline", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
