"""C15: writable component access is exclusive.

Compile-fail witnesses: every pair (way to get a writable reference to a component
or resource, second way to reach the same one while the first is in use) must be
rejected by the type or borrow checker, with accepted twins; read-only access must
not be usable for writing; iterators and stores must not be duplicable. The pairs
that today's public API accepts are listed as known findings, one per pair.
"""
from spec import *
import witness
from c16 import BORROW, SRC, DECL

FLOORS = {"C15-pair": 40}
MUT = {"E0594", "E0596"} | BORROW
ASSUMPTIONS = ["programs without unsafe code"]
# first access (holds a reference to component A of e, writable or not), kind
ACC = [
    ("refs", "store.get_components_refs::<A>(e).unwrap()", "r", False),
    ("refs_mut", "store.get_components_refs_mut::<A>(e).unwrap()", "w", False),
    ("refs_mut2", "store.get_components_refs_mut::<(A, B)>(e).unwrap()", "w", False),
    ("cq_ro", "store.component_query_iter(&mut q0).next()", "r", True),
    ("cq_w", "store.component_query_iter(&mut q1).next()", "w", True),
    ("cq_rw", "store.component_query_iter(&mut q2).next()", "w", True),
    ("eq_ro", "store.entity_component_query_iter(&list, &mut e0).next()", "r", True),
    ("eq_w", "store.entity_component_query_iter(&list, &mut e1).next()", "w", True),
    ("eq_rw", "store.entity_component_query_iter(&list, &mut e2).next()", "w", True),
    ("oq_ro", "store.ordered_query_iter(&mut o0).next()", "r", True),
    ("oq_w", "store.ordered_query_iter(&mut o1).next()", "w", True),
    ("oq_rw", "store.ordered_query_iter(&mut o2).next()", "w", True),
]
Q = """ let mut store = Store::new(); let e = store.create_entity(); let list = vec![e];
 let mut q0 = query::component::readonly::<A>(); let mut q1 = query::component::write::<A>(); let mut q2 = query::component::read_write::<B, A>();
 let mut e0 = query::entity_component::readonly::<A>(); let mut e1 = query::entity_component::write::<A>(); let mut e2 = query::entity_component::read_write::<B, A>();
 let mut o0 = query::ordered_component::readonly::<G, A>(); let mut o1 = query::ordered_component::write::<G, A>(); let mut o2 = query::ordered_component::read_write::<G, B, A>();
"""
SECOND = Q.replace("q0", "p0").replace("q1", "p1").replace("q2", "p2").replace("e0", "f0").replace("e1", "f1").replace("e2", "f2").replace("o0", "g0").replace("o1", "g1").replace("o2", "g2")
REN = [("&mut q", "&mut p"), ("&mut e", "&mut f"), ("&mut o", "&mut g")]


def cases():
    out = []
    second = "\n".join(SECOND.split("\n")[1:])
    for n1, x1, k1, _ in ACC:
        for n2, x2, k2, _ in ACC:
            if k1 == k2 == "r":
                continue
            y2 = x2
            for a, b in REN:
                y2 = y2.replace(a, b)
            # a writing query asks for the shared store only: one finding per function, not per pair
            w = [n for n, k, x in ((n1, k1, x1), (n2, k2, x2)) if k == "w" and x.find("query_iter") > 0]
            if w and "refs_mut" not in n1 + n2:
                key = ["mut_query_shared_" + {"cq": "w", "eq": "e", "oq": "o"}[w[0][:2]]]
            else:
                key = []
            out.append((f"{n1}_{n2}", BORROW, "C15-single" if key else "C15-pair", f"`{x1}` and `{y2}` can be in use together",
                        f"fn f() {{\n{Q}{second}\n let a = {x1};\n let b = {y2}; //!\n let b = 0; //+\n seen(&b); seen(&a);\n}}", *key))
    W = Q
    one = [
        ("mut_through_shared", "fn f(store: &Store, e: Entity) {\n let a = store.get_components_refs_mut::<A>(e); //!\n}", {"E0596"}, "writable lookup through a shared store"),
        ("mut_query_shared_w", "fn f(store: &Store) {\n let mut q = query::component::write::<A>();\n let a = store.component_query_iter(&mut q); //!\n}", {"E0596"}, "writable component query through a shared store"),
        ("mut_query_shared_e", "fn f(store: &Store, l: &[Entity]) {\n let mut q = query::entity_component::write::<A>();\n let a = store.entity_component_query_iter(l, &mut q); //!\n}", {"E0596"}, "writable entity-list query through a shared store"),
        ("mut_query_shared_o", "fn f(store: &Store) {\n let mut q = query::ordered_component::write::<G, A>();\n let a = store.ordered_query_iter(&mut q); //!\n}", {"E0596"}, "writable ordered query through a shared store"),
        ("dup_tuple", "fn f(store: &mut Store, e: Entity) {\n let a = store.get_components_refs_mut::<(A, A)>(e); //!\n}", {"E0277", "E0599"}, "one lookup yields the same component twice, writable"),
        ("dup_read_write", "fn f(store: &mut Store) {\n let mut q = query::component::read_write::<A, A>(); //!\n}", {"E0277", "E0599"}, "one query yields the same component read-only and writable"),
        ("dup_query", "fn f(store: &mut Store) {\n let mut q = query::component::write::<(A, A)>(); //!\n}", {"E0277", "E0599"}, "one query yields the same component twice, writable"),
        ("write_readonly_refs", "fn f(store: &mut Store, e: Entity) {\n let a = store.get_components_refs::<A>(e).unwrap();\n a.x = 1; //!\n}", {"E0594"}, "a read-only lookup is writable"),
        ("write_readonly_cq", "fn f(store: &mut Store, e: Entity) {\n let mut q = query::component::readonly::<A>(); for a in store.component_query_iter(&mut q) {\n a.x = 1; //!\n }\n}", {"E0594"}, "an item of a read-only query is writable"),
        ("write_readonly_eq", "fn f(store: &mut Store, l: &[Entity]) {\n let mut q = query::entity_component::readonly::<A>(); for a in store.entity_component_query_iter(l, &mut q) {\n a.x = 1; //!\n }\n}", {"E0594"}, "an item of a read-only query is writable"),
        ("write_readonly_oq", "fn f(store: &mut Store, l: &[Entity]) {\n let mut q = query::ordered_component::readonly::<G, A>(); for a in store.ordered_query_iter(&mut q) {\n a.x = 1; //!\n }\n}", {"E0594"}, "an item of a read-only query is writable"),
        ("write_read_part", "fn f(store: &mut Store, l: &[Entity]) {\n let mut q = query::component::read_write::<A, B>(); for (a, b) in store.component_query_iter(&mut q) {\n a.x = 1; //!\n b.y = 1;\n }\n}", {"E0594"}, "the read part of a read-write query is writable"),
        ("write_archetype", "fn f(store: &mut Store, e: Entity) {\n let a: &mut Archetype = store.get_entity_archetype(e).unwrap(); //!\n}", {"E0308"}, "an entity's archetype is writable"),
        ("res_mut_mut", "fn f(store: &mut ResourceStore<String>, e: Entity) {\n let a = &mut store[e];\n let b = &mut store[e]; //!\n a.clear();\n}", BORROW, "two writable references to one resource"),
        ("res_mut_ref", "fn f(store: &mut ResourceStore<String>, e: Entity) {\n let a = &mut store[e];\n let b = &store[e]; //!\n let b = 0; //+\n a.clear(); seen(&b);\n}", BORROW, "a writable and a shared reference to one resource"),
        ("res_ref_mut", "fn f(store: &mut ResourceStore<String>, e: Entity) {\n let a = &store[e];\n let b = &mut store[e]; //!\n seen(&a);\n}", BORROW, "a shared and a writable reference to one resource"),
        ("res_shared", "fn f(store: &ResourceStore<String>, e: Entity) {\n let a = &mut store[e]; //!\n}", {"E0596", "E0594"}, "a writable reference to a resource of a shared store"),
        ("res_clone", "fn f(store: ResourceStore<String>) {\n need_clone(&store); //!\n}", {"E0277"}, "a resource store can be duplicated"),
        ("res_copy_out", "fn f(store: &mut ResourceStore<String>, e: Entity) {\n let a = store[e]; //!\n}", {"E0507"}, "a resource can be moved out by indexing"),
    ]
    for cid, code, codes, what in one:
        out.append((cid, codes, "C15-single", what, code))
    for cid, ty in (("cq", "query::component::ComponentsQueryIter<'static, WriteAccess<A>>"), ("cqe", "query::component::WithEntitiesIter<'static, WriteAccess<A>>"),
                    ("cqt", "query::component::FilterTagIter<'static, WriteAccess<A>>"), ("eq", "EntityComponentQueryIter<'static, WriteAccess<A>>"),
                    ("eqe", "query::entity_component::WithEntitiesIter<'static, WriteAccess<A>>"), ("oq", "OrderedComponentQueryIter<'static, WriteAccess<A>>"),
                    ("oqe", "query::ordered_component::WithEntitiesIter<'static, WriteAccess<A>>"), ("store", "Store"),
                    ("pi", "query::component_page_iter::ComponentPageIter<'static, WriteAccess<A>>")):
        out.append((f"clone_{cid}", {"E0277"}, "C15-clone", f"{ty} can be duplicated", f"fn f(i: {ty}) {{\n need_clone(&i); //!\n}}"))
    for tr, m in (("ComponentTuple", "ptrs_to_refs_mut"), ("ComponentTuple", "ptrs_to_refs")):
        out.append((f"safe_{m}", {"E0133"}, "C15-single", f"safe code can turn any pointer into a reference with {tr}::{m}",
                    f"fn f(p: *mut A) {{\n let r = <A as {tr}>::{m}(p); //!\n}}"))
    out.append(("safe_access_ptrs_to_refs", {"E0133"}, "C15-single", "safe code can turn any pointer into a reference with ComponentQueryAccess::ptrs_to_refs",
                "fn f(p: *mut A) {\n let r = <WriteAccess<A> as query::access::ComponentQueryAccess>::ptrs_to_refs(p); //!\n}"))
    return out


def run(sp):
    witness.decide(sp, "c15", cases())
