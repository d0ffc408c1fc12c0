UNITS = [dict(cpp="P03.cpp", entries=["cycle_unsigned", "cycle_signed", "cycle_two", "exceeded", "validate", "arith"])]
ASSUMPTIONS = ["angle resolution between 1 and 2^20, coordinates within +-2^30"]


class Split:
    JOIN = False


SPEC = {"cycle_signed": Split, "cycle_unsigned": Split, "cycle_two": Split}
