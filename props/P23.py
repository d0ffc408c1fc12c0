UNITS = [dict(cpp="P23.cpp", name="P23", entries=["push", "clear"])]
SPEC = {}
ASSUMPTIONS = ["std::list used as a queue (contract in harness/P23.cpp); the middleware's time types by exact nanoseconds (stubs/ros/time.h)",
               "clouds arrive in time order"]
