import gridabs
UNITS = [dict(cpp="P02.cpp", name="P02a", entries=["clear_partially", "copy_partially_same", "copy_partially_shift"], noinline=gridabs.NOINLINE),
         dict(cpp="P02.cpp", name="P02b", flags=["-DRAW"], entries=["clear_all", "clear_all_float", "clear_positive_all", "assign_char", "assign_float"])]
SPEC = {e: gridabs.Spec for e in UNITS[0]["entries"]}
ASSUMPTIONS = ["map sizes up to 4096 x 4096 x 256 cells"]
