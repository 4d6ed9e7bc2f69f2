"""C05: component references are aligned.

Every column a layout places starts at a multiple of its type's alignment (an
arbitrary set of types), a page's memory is aligned to the size of a page, so to any
alignment a type that fits in it can have, and entity i's component is i times the
type's size further (tuple functions of every arity): all of these are multiples of
the alignment. References are made of offsets looked up for that very type in the
layout of the page's own set.
"""
from spec import *
import c04
import c21
import layout
import tuples as tuples_

ASSUMPTIONS = ["debug assertions (overflow checks included) are on", "archetype functions are set operations (C21)",
               "a type's size is a multiple of its alignment (language)", "the allocator honours the requested alignment",
               "tables of pages and archetypes are consistent (C06)"]
FLOORS = {"entries": 20, "C05-layout": 4, "C05-tuple": 200, "C05-slot": 2, "C21-table": 5}


def run(sp):
    sp.guard(layout.Columns(sp, "C05-layout").run, True, False)
    sp.guard(tuples_.check, sp, "C05-tuple", tuples_.SLOTS + tuples_.PTRS)
    sp.parallel([(c21.of, sp), (c21.build, sp), (c21.clone, sp)])
    sp.guard(c04.lookups, sp, "C05-slot", False)
