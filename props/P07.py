import gridabs
UNITS = [dict(cpp="P07.cpp", name="P07", entries=["remember"], noinline=gridabs.NOINLINE)]
SPEC = {e: gridabs.Spec for e in UNITS[0]["entries"]}
ASSUMPTIONS = ["maps up to 4096 x 4096, ranges up to 2896 cells (exact in float), the costmap has the size of the memory"]
