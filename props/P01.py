UNITS = [dict(cpp="P01.cpp", entries=["fresh_char", "fresh_float_64_checked", "constructed_float_block8", "reset_twice",
                                     "reset_thrice", "plain_2d", "checked_outside", "addressor"])]
ASSUMPTIONS = ["map sizes up to 4096 x 4096 x 256 cells"]
