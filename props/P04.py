import re
import cycabs
import gridabs
import vecabs
FIND = r"GridAstar<\d+, \d+>::findPath\("
NOINLINE = gridabs.NOINLINE + cycabs.NOINLINE + vecabs.NOINLINE + [FIND]
UNITS = [dict(cpp="P04.cpp", name="P04", entries=["find_path", "search", "start_at_goal"], libs=["-fopenmp", "-lboost_chrono", "-lboost_system"], noinline=NOINLINE),
         dict(cpp="P04.cpp", name="P04j", flags=["-DVC_D=2", "-DVC_N=0"], entries=["find_path", "search", "start_at_goal"], libs=["-fopenmp", "-lboost_chrono", "-lboost_system"], noinline=NOINLINE)]


class Body:
    CONTRACTS = gridabs.CONTRACTS + cycabs.CONTRACTS + vecabs.CONTRACTS


class S:
    CONTRACTS = Body.CONTRACTS + [(re.compile(FIND), "findpath_contract")]


SPEC = {"find_path": Body, "search": S, "start_at_goal": S}
ASSUMPTIONS = [
    "std::vector, std::unordered_map, std::priority_queue, std::list and std::function by contracts over element invariants (include/vcbag.h, harness/P04.cpp); the native runs use the real library",
    "the parallel region is verified as one thread with any number of threads reported; OpenMP's barriers, single and critical sections are trusted",
    "the motion model is an arbitrary function of the two cells: every cost in -1..FLT_MAX, every estimate in -1..1e9 or FLT_MAX",
    "contract of CyclicVecBase comparisons, cycleUnsigned (P03) and of BlockMemGridmap (P02)",
    "float arithmetic as reals: the estimated remaining cost of a queued cell is recovered exactly from the difference of its two keys",
]
