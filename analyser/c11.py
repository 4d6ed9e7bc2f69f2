"""C11: a query over a list of entities yields its valid ones in list order.

The loop that starts an iteration goes through an arbitrary list of handles from its
start to its end: each iteration passes over one handle that is dead or lacks the
queried types, or lists a range that begins where the last one ended, with the view of
the page its handles are in; any handle of the range (arbitrary witness, followed into
the inner loop at the iteration that looks at it) is alive, has the types and is in that
page. A step of an arbitrary iterator yields the components of the next handle of the
ranges at that entity's own slot, and ends when none is left. The facts about pages are
shown preserved by every operation.
"""
from spec import *
import c06
import queries
import tuples as tuples_

ASSUMPTIONS = ["debug assertions are on", "archetype functions are set operations (C21)", "distinct pages own distinct memory (C18)",
               "handles are used with the store that issued them"]
FLOORS = {"entries": 20, "C11-ranges": 25, "C11-step": 10, "C11-access": 30, "C11-tuple": 100, "C06-slot-owner": 100}


def run(sp):
    sp.guard(queries.access, sp, "C11-access")
    sp.guard(tuples_.check, sp, "C11-tuple", ("get_offsets_unchecked",) + tuples_.PTRS)
    sp.guard(lambda: queries.StartListed(sp, "C11-ranges").run())
    sp.guard(queries.steps, sp, queries.Listed(sp), "C11-step", None)
    c06.run(sp)
