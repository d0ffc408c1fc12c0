import rotabs
UNITS = [dict(cpp="P10.cpp", name="P10", entries=["motions"], noinline=rotabs.NOINLINE),
         dict(cpp="P10.cpp", name="P10r", entries=["rotation"])]


class S:
    CONTRACTS = rotabs.CONTRACTS
    TRIGFACTS = False


SPEC = {"motions": S}
ASSUMPTIONS = ["up to 256 orientations, window up to 401x401 cells, linear resolution 0.01..1, angular resolution one n-th of a turn",
               "vector<Page> and unique_ptr<T[]> are their contracts: one arbitrary page is tracked, the others are unknown"]
