UNITS = [dict(cpp="P22.cpp", name="P22", entries=["autonomous", "start"] + ["operator_%d" % i for i in range(9)])]
SPEC = {}
ASSUMPTIONS = ["clock at least 2^33 ns; up to 20 axes and buttons, stick values in -1..1, scale factors up to 10; the interrupt button index is not negative (the node refuses to run otherwise)",
               "middleware stand-ins: exact time arithmetic, publishing records the message; std::vector, shared_ptr and string are contracts"]
