UNITS = [dict(cpp="P14.cpp", name="P14", flags=["-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_DEBUG"],
              entries=["segment_distance", "segment_nearest", "segment_attained", "segment_reversed", "line_distance", "foot", "curvature", "grid_int", "grid_float"])]
ASSUMPTIONS = ["coordinates up to 100; line and segment ends at least 0.01 apart where a division by the length is involved"]
