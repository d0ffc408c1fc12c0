UNITS = [dict(cpp="P18.cpp", name="P18", entries=["measure_finite", "measure_weights", "extremes", "prediction"])]
ASSUMPTIONS = ["finite estimates, measurements and uncertainties up to 1000"]
