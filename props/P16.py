import re
PRED = r"SafetyLimiterNode::predict\("
INSIDE = r"polygon::inside\("
UNITS = [dict(cpp="P16.cpp", name="P16", eh=True, entries=["ratio", "maxima", "command", "prediction", "predict"],
              flags=["-I" + __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))), "stubs_opaque"), "-DBOOST_BIND_GLOBAL_PLACEHOLDERS"],
              libs=["-lboost_thread", "-lboost_system", "-lpthread"], noinline=[PRED, INSIDE])]


class S:
    CONTRACTS = [(re.compile(PRED), "predict_contract")]


class P:
    CONTRACTS = [(re.compile(INSIDE), "inside_contract")]


SPEC = {"prediction": S, "predict": P}
ASSUMPTIONS = [
    "one event at a time (the node spins one thread): every callback from every state with ratio in 0..1, clock at least 2^33 ns, disable stamp not in the future, parameters in their configured ranges with frequency, velocities, accelerations and dt above 0.01",
    "middleware, tf2, pcl and Eigen stand-ins (stubs/): exact time arithmetic, publishing records the message, a transform lookup succeeds or throws, a cloud has any number of points",
    "the prediction enters the timer callback by its contract (entry predict); std::vector, shared_ptr, unique_ptr and string are contracts; an uncontended mutex",
]
