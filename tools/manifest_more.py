MC = "model_checking"
T["C16"] = ("explicit-state exploration of the real objects: all sequences of operations up to a depth, breadth-first search over the state space of a two-register machine, states compared with fresh objects", MC,
            "Every sequence of the listed operations up to the depth in the evidence is executed on real objects; after each, the object is compared with a freshly made one in every observation. The breadth-first search keys its states on the observable value and checks that every path to a value gives the same object.")
T["C17"] = ("explicit enumeration of every aliasing pattern of the arguments of every operation over a bounded operand space, against distinct objects and GMP", MC,
            "All set partitions of the object arguments (including the assigned object and output arguments) of every operation, over the operand spaces in the evidence.")
T["C18"] = ("exhaustive replay of the enumerated execution spaces of C01-C17 with monitors: address and undefined-behaviour sanitizers in three builds, a leak-counting allocator, memcheck for uninitialised reads, a watchdog for termination", MC,
            "The monitors observe every execution of the enumerated spaces; nothing is sampled. Termination is decided by a watchdog far above the cost of any case. Uninitialised reads are decided on smaller spaces, since memcheck is slow.")
T["C19"] = ("exhaustive fault enumeration: for every operation and operand choice every allocation index is made to fail in turn, on the real code, with a live-block count and operand comparison after each", "fault_enumeration",
            "Every allocation of every listed scenario fails once (std::bad_alloc), on top of every domain error; single failures only, the recovery is observed by further operations.")
T["C20"] = ("stateless model checking of the real code under a controlled scheduler: all interleavings of two and three threads up to a preemption bound with conflict-based reduction, happens-before race detection on every execution", MC,
            "The library is compiled with -fsanitize=thread instrumentation that calls the scheduler's own runtime; sequentially consistent interleavings only, which is sound for code without data races, and races are reported on every execution. Control scenarios with planted races must be found, and guarded ones must be quiet, in every run.")
T["C21"] = ("explicit enumeration of operator x operand kinds x bounded operand space through the built Python module, against Python's integers", MC,
            "Every case runs through the extension module built from /repo. Trusted: CPython's int, pybind11.")
T["C22"] = ("explicit enumeration of a bounded space of ints, buffers (format, stride, offset, length) and copies through the built Python module, against Python's integers", MC,
            "Every case runs through the extension module built from /repo. Trusted: CPython's int and buffer protocol, pybind11.")
T["C23"] = ("exhaustive enumeration of initialisation orders: every subset of the library's translation units initialised before a user's unit, in order and reversed, object files, archives and shared libraries", MC,
            "Every link order is built and run; the program computes a suite of operations during its static initialisation, again in main, and must get the same results, which must also be the same in all orders.")
T["C24"] = ("the enumerated execution spaces of C01-C17 replayed in lockstep with the reference in every build configuration (two compilers, four optimisation levels, assertions on and off)", MC,
            "Each configuration is compared with the same reference on the same exhaustively enumerated cases, so any two configurations agree on them.")
