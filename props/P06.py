UNITS = [dict(cpp="P06.cpp", name="P06", entries=["update_bounds", "update_value", "update_monotone", "probability", "conversions"])]
ASSUMPTIONS = ["odds factors and initial odds finite and not negative (up to 1e6)"]
