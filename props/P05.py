import cycabs
import gridabs
UNITS = [dict(cpp="P05.cpp", name="P05", entries=["move_outside", "move_rejected", "move_cost", "move_free", "move_empty", "estimate", "moves"], noinline=gridabs.NOINLINE + cycabs.NOINLINE)]


class S:
    CONTRACTS = gridabs.CONTRACTS + cycabs.CONTRACTS


SPEC = {e: S for e in UNITS[0]["entries"]}
ASSUMPTIONS = ["resolution 2..1024, map of two turns per joint, cell costs 0..127 (obstacle above 99), distance weights up to 100 in magnitude, cost weight not negative",
               "in the move-set check the list container is its contract: an arbitrarily long sequence"]
