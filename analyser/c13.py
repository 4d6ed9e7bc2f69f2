"""C13: with_entities pairs each item with the handle of the entity it belongs to.

For the three query kinds, with_entities and a step of the paired iterator are analysed
on an arbitrary iterator in the middle of an iteration: the id yielded is that of the
slot (or list position) the components yielded with it are at, and the version is the one
the store holds for that id. The lists an iteration starts from pair each page's columns
with that page's entities (any query kind), and pages hold live entities in the slots
their tables name (shown preserved by every operation). Tag filtering passes pairs on
unchanged.
"""
from spec import *
import c06
import queries

ASSUMPTIONS = ["debug assertions are on", "archetype functions are set operations (C21)", "handles are used with the store that issued them",
               "an iterator borrows the store, which does not change while it is in use"]
FLOORS = {"entries": 12, "C13-pair": 60, "C13-filter": 10, "C13-lists": 60, "C06-slot-owner": 100}


def run(sp):
    for c in (queries.Components, queries.Listed, queries.Ordered):
        sp.guard(queries.pairs, sp, c(sp), "C13-pair")
    sp.guard(queries.filtered, sp, "C13-filter")
    sp.guard(queries.tagged, sp, "C13-filter")
    sp.guard(lambda: queries.StartComponents(sp, "C13-lists", "C13-lists").run())
    sp.guard(lambda: queries.StartListed(sp, "C13-lists").run())
    sp.guard(lambda: queries.StartOrdered(sp, "C13-lists", "C13-lists").run())
    c06.run(sp)
