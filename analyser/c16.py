"""C16: references and iterators cannot outlive the borrow of the store they came from.

Compile-fail witnesses over every public function that hands out borrowed data x
every later event that would invalidate it (each mutating operation of the store,
drop of the store, of the query object, of the entity list, return from the
function that owns the store). The program must be rejected by the borrow checker,
its twin (same program without the later use, or without the event) accepted. A
second rule looks at the compiler's signatures of all exported functions: a region
of the output must occur in an input (a free output region lets a reference
outlive everything).
"""
import re

from spec import *
import witness

ASSUMPTIONS = ["programs without unsafe code"]
BORROW = {"E0499", "E0502", "E0505", "E0506", "E0515", "E0597", "E0716", "E0521", "E0503", "E0713", "E0382"}

# how borrowed data is obtained: (id, params, expression, later use)
SRC = [
    ("refs", "", "store.get_components_refs::<(A, B)>(e).unwrap()", "seen(&r)"),
    ("refs1", "", "store.get_components_refs::<A>(e)", "seen(&r)"),
    ("refs_mut", "", "store.get_components_refs_mut::<(A, B)>(e).unwrap()", "seen(&r)"),
    ("refs_mut1", "", "store.get_components_refs_mut::<A>(e)", "seen(&r)"),
    ("arch", "", "store.get_entity_archetype(e)", "seen(&r)"),
    ("cq", "", "store.component_query_iter(&mut q)", "eat(r.count())"),
    ("cq_item", "", "store.component_query_iter(&mut q).next()", "seen(&r)"),
    ("cq_vec", "", "store.component_query_iter(&mut q).collect::<Vec<_>>()", "seen(&r)"),
    ("cq_ent", "", "store.component_query_iter(&mut q).with_entities()", "eat(r.count())"),
    ("cq_ent_item", "", "store.component_query_iter(&mut q).with_entities().next()", "seen(&r)"),
    ("cq_tag", "", "store.component_query_iter(&mut q).with_entities().filter_tag::<G>()", "eat(r.count())"),
    ("cq_tag_item", "", "store.component_query_iter(&mut q).with_entities().filter_tag::<G>().next()", "seen(&r)"),
    ("eq", "", "store.entity_component_query_iter(&list, &mut eq)", "eat(r.count())"),
    ("eq_item", "", "store.entity_component_query_iter(&list, &mut eq).next()", "seen(&r)"),
    ("eq_ent", "", "store.entity_component_query_iter(&list, &mut eq).with_entities()", "eat(r.count())"),
    ("eq_ent_item", "", "store.entity_component_query_iter(&list, &mut eq).with_entities().next()", "seen(&r)"),
    ("oq", "", "store.ordered_query_iter(&mut oq)", "eat(r.count())"),
    ("oq_item", "", "store.ordered_query_iter(&mut oq).next()", "seen(&r)"),
    ("oq_ent", "", "store.ordered_query_iter(&mut oq).with_entities()", "eat(r.count())"),
    ("oq_ent_item", "", "store.ordered_query_iter(&mut oq).with_entities().next()", "seen(&r)"),
]
EVENTS = [
    ("drop", "drop(store)"),
    ("create", "store.create_entity()"),
    ("create_arch", "store.create_entity_with_archetype(&Archetype::with_components::<A>())"),
    ("destroy", "store.destroy_entity(e)"),
    ("add", "store.add_components(e, B { y: 1 })"),
    ("remove", "store.remove_components::<A>(e)"),
    ("tag", "store.add_tag::<G>(e)"),
    ("untag", "store.remove_tag::<G>(e)"),
    ("order", "store.add_entity_order_by::<G>(e)"),
    ("order_next", "store.add_entity_next_to_order_by::<G>(e, e)"),
    ("order_prev", "store.add_entity_previous_to_order_by::<G>(e, e)"),
    ("unorder", "store.remove_entity_order_by::<G>(e)"),
    ("refs_mut", "eat(store.get_components_refs_mut::<A>(e))"),
    ("replace", "store = Store::new()"),
]
DECL = """ let mut store = Store::new(); let e = store.create_entity(); let list = vec![e];
 let mut q = query::component::{k}(); let mut eq = query::entity_component::{k}(); let mut oq = query::ordered_component::{o}();"""
KINDS = [("readonly::<A>", "readonly::<G, A>"), ("write::<(A, B)>", "write::<G, (A, B)>"), ("read_write::<A, B>", "read_write::<G, A, B>")]
RES = [
    ("res", "seen(&store[e])", "&store[e]"), ("res_mut", "seen(&store[e])", "&mut store[e]"),
]
REV = [("create", "store.create(String::new())"), ("release", "store.release(e)"), ("drop", "drop(store)"),
       ("set", "store[e] = String::new()"), ("replace", "store = ResourceStore::new()")]


FLOORS = {"C16-outlive": 500, "C16-signature": 60}


def cases():
    out = []
    for sid, _, expr, use in SRC:
        query = sid[:2] in ("cq", "eq", "oq")
        for ki, (k, o) in enumerate(KINDS if query else KINDS[:1]):
            d = DECL.replace("{k}", k).replace("{o}", o)
            n = f"{sid}{ki}" if query else sid
            for ev, act in EVENTS:
                if ev == "refs_mut" and False:
                    continue
                out.append((f"{n}_{ev}", BORROW, "C16-outlive", f"what `{expr}` returns survives `{act}`",
                            f"fn f() {{\n{d}\n let r = {expr};\n {act}; //!\n {use};\n}}"))
            # the owner dies, or the data leaves the function
            out.append((f"{n}_scope", BORROW, "C16-outlive", f"what `{expr}` returns outlives the store",
                        f"fn f() {{\n let e = Store::new().create_entity(); let list = vec![e];\n let mut q = query::component::{k}(); let mut eq = query::entity_component::{k}(); let mut oq = query::ordered_component::{o}();\n"
                        f" let mut store = Store::new(); //+\n let r; {{\n let mut store = Store::new(); //!\n r = {expr}; }}\n {use};\n}}"))
            if query:
                qv = {"cq": "q", "eq": "eq", "oq": "oq"}[sid[:2]]
                out.append((f"{n}_query", BORROW, "C16-outlive", f"what `{expr}` returns survives its query object",
                            f"fn f() {{\n{d}\n let r = {expr};\n drop({qv}); //!\n {use};\n}}"))
                out.append((f"{n}_again", BORROW, "C16-outlive", f"what `{expr}` returns survives reuse of its query object",
                            f"fn f() {{\n{d}\n let r = {expr};\n let r2 = {expr}; //!\n {use};\n}}"))
                if sid[:2] == "eq":
                    out.append((f"{n}_list", BORROW, "C16-outlive", f"what `{expr}` returns survives the entity list",
                                f"fn f() {{\n{d}\n let mut list = list; let r = {expr};\n list.clear(); //!\n {use};\n}}"))
    for sid, _, expr in RES:
        for ev, act in REV:
            out.append((f"{sid}_{ev}", BORROW, "C16-outlive", f"`{expr}` survives `{act}`",
                        f"fn f() {{\n let mut store = ResourceStore::new(); let e = store.create(String::new());\n let r = {expr};\n {act}; //!\n seen(&r);\n}}"))
    for cid, expr in (("arch_ids", "arch.included_ids()"), ("arch_iter", "arch.components_iter()")):
        out.append((cid + "_drop", BORROW, "C16-outlive", f"`{expr}` outlives the archetype",
                    f"fn f() {{\n let arch = Archetype::with_components::<A>();\n let r = {expr};\n drop(arch); //!\n eat(r);\n}}"))
    for cid, ret, expr in (("static_refs", "Option<&'static A>", "store.get_components_refs::<A>(e)"),
                           ("static_mut", "Option<&'static mut A>", "store.get_components_refs_mut::<A>(e)"),
                           ("static_arch", "Option<&'static Archetype>", "store.get_entity_archetype(e)")):
        out.append((cid, {"E0521", "E0621", "E0597"} | {None}, "C16-outlive", f"`{expr}` can be given the 'static lifetime",
                    f"fn f(store: &mut Store, e: Entity) {{\n let r: {ret} = //!\n {expr};\n}}"))
    for cid, ty, expr in (("static_cq", "query::component::ComponentsQueryIter", "store.component_query_iter(q)"),):
        out.append((cid, {"E0521", None}, "C16-outlive", "a query iterator can be given the 'static lifetime",
                    f"fn f(store: &Store, q: &mut ComponentReadOnlyQuery<A>) {{\n let r: {ty}<'static, ReadonlyAccess<A>> = //!\n {expr};\n}}"))
    return out


def run(sp):
    signatures(sp)
    witness.decide(sp, "c16", cases())


def signatures(sp):
    """every region in the output of an exported function is a region of an input"""
    for n, l in sorted(sp.p.fns.items()):
        for f in l:
            if not f.get("exported") or "sig" not in f:
                continue
            s = f["sig"]
            if not s["in"]:
                continue    # nothing to borrow from: statics and empty iterators
            ins = set()
            for i in s["in"]:
                ins |= {r for r in i["r"]}
            sp.entry(re.sub(r"^<.* as (.*)>::", r"\1::", n))
            sp.obl += 1
            sp.obl_by["C16-signature"] = sp.obl_by.get("C16-signature", 0) + 1
            sp.entries[sp.cur]["obligations"] += 1
            free = [r for r in s["outr"] if r not in ins and r != "'static"]
            if free and not s["unsafe"]:
                sp.violate("C16-signature", f"the output of `{n}` ({f['at']}) has a lifetime no argument has: {free}\n  {s['s']}")
