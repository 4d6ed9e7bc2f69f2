"""C12: an ordered query yields the group's matching members in order.

The loop that starts an iteration follows the links of an arbitrary group from its first
member to the end: each iteration moves past one member that does not match, or lists the
slots of exactly the members it moves past (the inner loop is followed member by member:
the next link, the same page, the next slot). A step of an arbitrary iterator yields the
next slot of the ranges and ends when none is left. Every iteration follows at least one
link, and groups are chains without cycles (C09, whose rules are checked with this), so
the loop ends.
"""
from spec import *
import c06
import c09
import queries
import tuples as tuples_

ASSUMPTIONS = ["debug assertions are on", "archetype functions are set operations (C21)", "distinct pages own distinct memory (C18)",
               "fewer than 2^32-1 entities"]
FLOORS = {"entries": 20, "C12-ranges": 30, "C12-count": 3, "C12-step": 10, "C12-access": 30, "C12-tuple": 100, "C09-next": 120, "C06-slot-owner": 100}


def run(sp):
    sp.guard(queries.access, sp, "C12-access")
    sp.guard(tuples_.check, sp, "C12-tuple", ("get_offsets_unchecked",) + tuples_.PTRS)
    sp.guard(lambda: queries.StartOrdered(sp, "C12-ranges", "C12-count").run())
    sp.guard(queries.steps, sp, queries.Ordered(sp), "C12-step", "C12-count")
    c06.run(sp)
    c09.run(sp)
