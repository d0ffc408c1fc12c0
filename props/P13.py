UNITS = [dict(cpp="P13.cpp", name="P13", entries=["lpf_steady", "lpf_step", "lpf_bounded", "lpf_converge", "hpf_constant", "hpf_reset", "angular", "angular_step"])]
ASSUMPTIONS = ["signals up to 100, time constants up to 1000 samples", "angular inputs not exactly half a turn from the output"]
