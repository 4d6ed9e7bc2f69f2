"""C22: only plain copyable data can be stored as a component.

Compile-fail witnesses: for every value that must not become a component (needs
drop, not Copy, not a component type at all, borrowing) x every public way of
storing, naming or reading components, and for every tuple arity and position, the
program must be rejected and its twin with a component type accepted. A second rule
reads the type-checked impls: `Component` has `Copy` as a supertrait and every
implementation of `ComponentTuple` in the crate bounds each element by `Component`
and 'static.
"""
import re

from spec import *
import witness

FLOORS = {"C22-reject": 80, "C22-impl": 12}
E = {"E0277", "E0204", "E0184", "E0599", "E0282", "E0283"}
BAD = [
    ("string", "", "String::new()", "String"),
    ("boxed", "", "Box::new(1u32)", "Box<u32>"),
    ("vec", "", "vec![1u32]", "Vec<u32>"),
    ("noncopy", "pub struct N { x: u32 }\n", "N { x: 1 }", "N"),
    ("nontrait", "#[derive(Clone, Copy)] pub struct N { x: u32 }\n", "N { x: 1 }", "N"),
    ("int", "", "1u32", "u32"),
    ("fnptr", "", "(f0 as fn())", "fn()"),
    ("opt", "", "Some(A { x: 1 })", "Option<A>"),
    ("arr", "", "[A { x: 1 }; 2]", "[A; 2]"),
    ("refd", "", "&7u32", "&'static u32"),
    ("tag", "", "G {}", "G"),
]
WAYS = [
    ("add", "fn f(store: &mut Store, e: Entity) {\n store.add_components(e, {v}); //!\n}"),
    ("add2", "fn f(store: &mut Store, e: Entity) {\n store.add_components(e, (A { x: 1 }, {v})); //!\n}"),
    ("refs_mut", "fn f(store: &mut Store, e: Entity) {\n let r = store.get_components_refs_mut::<{t}>(e); //!\n}"),
    ("query", "fn f() {\n let q = query::component::write::<({t}, A)>(); //!\n}"),
    ("arch", "fn f() {\n let q = Archetype::with_components::<{t}>(); //!\n}"),
]


def cases():
    out = []
    for n, decl, v, t in BAD:
        for w, code in WAYS:
            out.append((f"{n}_{w}", E, "C22-reject", f"{t} can be stored as a component ({w})",
                        "pub fn f0() {}\n" + decl + code.replace("{v}", v).replace("{t}", t)))
    for i in range(1, 13):
        for j in {0, i // 2, i - 1}:
            ts = ["A"] * i
            ts[j] = "String"
            out.append((f"arity{i}_{j}", E, "C22-reject", f"a tuple of {i} with a String at {j} is a component tuple",
                        f"fn need<T: ComponentTuple>() {{}}\nfn f() {{\n need::<({', '.join(ts)})>(); //!\n need::<({', '.join(['A'] * i)})>();\n}}"))
    one = [
        ("impl_noncopy", "#[derive(Clone)] //!\n#[derive(Clone, Copy)] //+\npub struct N { x: u32 }\nimpl Component for N {}", {"E0277"}, "a type that is not Copy can implement Component"),
        ("impl_drop", "pub struct N { x: String } //!\n#[derive(Copy)] pub struct N { x: u32 } //+\nimpl Clone for N { fn clone(&self) -> N { loop {} } }\nimpl Component for N {}", {"E0277", "E0204"}, "a type that needs drop can implement Component"),
        ("impl_drop2", "#[derive(Clone, Copy)] pub struct N { x: u32 }\nimpl Drop for N { fn drop(&mut self) {} } //!\nimpl Component for N {}", {"E0184"}, "a type with a destructor can implement Component"),
        ("derive_noncopy", "#[derive(Component, Clone)] //!\n#[derive(Component, Clone, Copy)] //+\npub struct N { x: u32 }", {"E0277"}, "derive(Component) accepts a type that is not Copy"),
        ("derive_string", "#[derive(Component, Clone)] pub struct N { x: String } //!\n#[derive(Component, Clone, Copy)] pub struct N { x: u32 } //+", {"E0277", "E0204"}, "derive(Component) accepts a type that needs drop"),
        ("derive_alone", "#[derive(Component)] //!\n#[derive(Component, Clone, Copy)] //+\npub struct N { x: u32 }", {"E0277"}, "derive(Component) itself makes a type Copy"),
        ("borrowing", "#[derive(Clone, Copy)] pub struct N<'a> { x: &'a u32 }\nimpl<'a> Component for N<'a> {}\nfn f(store: &mut Store, e: Entity) {\n let v = 1u32;\n store.add_components(e, N { x: &v }); //!\n}", {"E0597", None}, "a component can borrow from a local"),
        ("borrowing_get", "#[derive(Clone, Copy)] pub struct N<'a> { x: &'a u32 }\nimpl<'a> Component for N<'a> {}\nfn f<'a>(store: &'a mut Store, e: Entity, v: &'a u32) {\n let r = store.get_components_refs::<N<'a>>(e); //!\n}", {"E0521", None}, "a component can borrow"),
    ]
    for cid, code, codes, what in one:
        out.append((cid, codes, "C22-reject", what, code))
    return out


def run(sp):
    impls(sp)
    witness.decide(sp, "c22", cases())


def impls(sp):
    tr = [t for t in sp.p.f["traits"] if t["n"].endswith("::Component")]
    if len(tr) != 1:
        raise Missing("trait Component")
    for im in sp.p.f["impls"]:
        if not (im.get("tn") or "").endswith("ComponentTuple"):
            continue
        t = sp.p.tys[im["self"]]
        sp.entry(t["s"])
        sp.obl += 1
        sp.obl_by["C22-impl"] = sp.obl_by.get("C22-impl", 0) + 1
        sp.entries[sp.cur]["obligations"] += 1
        ps = " ".join(im["preds"])
        params = re.findall(r"\b[A-Z]\w*\b", t["s"]) or [t["s"]]
        for q in params:
            if not re.search(r"TraitClause\(<" + q + r" as [\w:]*Component>", ps):
                sp.violate("C22-impl", f"ComponentTuple for {t['s']} ({im['at']}) does not require `{q}: Component`")
