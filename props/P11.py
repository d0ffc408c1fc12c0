UNITS = [dict(cpp="P11.cpp", name="P11", entries=["set_step", "increment_step", "start"])]
ASSUMPTIONS = ["limits and period finite and not negative (speed and acceleration limits up to 1000, period up to 10 s)"]
