"""C10: a component query yields every matching entity exactly once.

The function that starts an iteration is analysed on an arbitrary store: its loops
visit every archetype and every page of it (or every page) once, and list the view of a
page exactly when its set has the queried types and it holds entities, starting from an
empty list. A step of an arbitrary iterator in the middle of an iteration yields the next
entity of the listed pages and moves on by one, or ends when none is left (a ranking
argument). The typed accesses are compositions of the tuple functions, whose addresses
are checked for every arity. The facts about pages this rests on (each entity in one slot
of one listed page) are shown preserved by every operation.
"""
from spec import *
import c06
import queries
import tuples as tuples_

ASSUMPTIONS = ["debug assertions are on", "archetype functions are set operations (C21)", "distinct pages own distinct memory (C18)",
               "an iterator borrows the store, which does not change while it is in use"]
FLOORS = {"entries": 20, "C10-pages": 20, "C10-count": 4, "C10-step": 20, "C10-access": 30, "C10-filter": 10, "C10-tuple": 100,
          "C06-slot-owner": 100, "C06-page-lost": 100, "C06-list-once": 100}


def run(sp):
    sp.guard(queries.access, sp, "C10-access")
    sp.guard(tuples_.check, sp, "C10-tuple", ("get_offsets_unchecked",) + tuples_.PTRS)
    sp.guard(lambda: queries.StartComponents(sp, "C10-pages", "C10-count").run())
    for c in (queries.Components, queries.Page):
        sp.guard(queries.steps, sp, c(sp), "C10-step", "C10-count")
    sp.guard(queries.filtered, sp, "C10-filter")
    sp.guard(queries.tagged, sp, "C10-filter")
    c06.run(sp)
