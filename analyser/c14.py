"""C14: len of a query iterator is the number of items it still yields.

A rank is defined on an arbitrary iterator in the middle of an iteration: how many
entities the current and later pages (or ranges) still hold. len is that rank, every step
that yields an item lowers it by one, and a step yields nothing exactly when it is 0. The
number an iteration starts with is the sum over the pages or ranges listed, counted
along with the list in the same iterations.
"""
from spec import *
import queries

ASSUMPTIONS = ["debug assertions are on", "archetype functions are set operations (C21)",
               "an iterator borrows the store, which does not change while it is in use"]
FLOORS = {"entries": 8, "C14-step": 40, "C14-count": 8, "C14-len": 6, "C14-start": 40}


def run(sp):
    for c in (queries.Components, queries.Page, queries.Ordered):
        sp.guard(queries.steps, sp, c(sp), "C14-step", "C14-count")
        sp.guard(queries.lens, sp, c(sp), "C14-len")
    sp.guard(lambda: queries.StartComponents(sp, "C14-start", "C14-count").run())
    sp.guard(lambda: queries.StartOrdered(sp, "C14-start", "C14-count").run())
