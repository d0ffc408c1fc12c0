UNITS = [dict(cpp="P19.cpp", name="P19", entries=["template_size", "template_cells", "message_cells"])]
SPEC = {}
ASSUMPTIONS = ["templates up to 2001x2001x256 cells, messages up to 4096x4096x64; one earlier size",
               "the message's data array is an arbitrarily long sequence (contract in include/vcstl.h)"]
