UNITS = [dict(cpp="P12.cpp", name="P12", entries=["normalize", "clipping", "braking"])]
ASSUMPTIONS = ["angles up to 10000 rad for the normalisation (beyond 2^24 turns single precision no longer resolves a turn)"]
