MC = "explicit-state model checking of the real code against a reference model (exhaustive enumeration, stateless)"
FAULT = "exhaustive fault-injection model checking of the real code (every I/O call x failure kind)"
REF = "Every execution of the bounded space stated in evidence/%s.json is run on the real library and compared with an independent reference model; nothing is sampled. Assumes the bounds are representative of larger inputs and trusts the reference model, the Go runtime and standard library."
TABLE = {}
for _i in list(range(1, 40)):
    _id = "C%02d" % _i
    TABLE[_id] = (MC, "model_checking", REF % _id)
TABLE["C07"] = (FAULT, "fault_enumeration", REF % "C07")
NA = {}
TABLE["C27"] = ("stateless model checking of thread interleavings of the real code under a controlled scheduler (preemption-bounded, exhaustive), with the race detector on unordered threads",
    "model_checking", "Every schedule of the bounded space stated in evidence/C27.json is executed on the real library, instrumented with a scheduling point before every statement, and every result compared with the one the call gives alone. Assumes statement granularity (finer conflicts are data races, which the race detector reports on every execution because the handovers are hidden from it) and the trusted race detector.")
TABLE["C36"] = ("exhaustive exploration of a bounded space of growing inputs on the real code, instrumented to count its statements",
    "model_checking", "Every input of the bounded space stated in evidence/C36.json is run on the real library, instrumented with a counter before every statement, at three sizes; the cost of each further byte must not grow between them. Nothing is sampled. Assumes that growth between the sizes shows growth beyond them, and bounds the time inside standard library calls only by the clock, on inputs of a million characters, with a limit some hundred times above the usual time.")
