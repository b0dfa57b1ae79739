LEVEL = ("Seeded search over generated histories, schedules and fault sequences inside one simulated process; no exhaustive bound. "
         "Trusts the simulator runtime (sim/rt.cpp), the harness models and the compiler's access instrumentation; libraries outside /repo run real but their internal memory accesses are not scheduling points. ")
TECH = dict(
    C01="write/crash/restart histories on a simulated disk, judged against the generated model of every acknowledged file",
    C02="every kind of I/O failure injected into writes and exports, judged against outcome and memory model",
    C03="torn, truncated and unreadable files produced by crashes and faults on the simulated disk, outcome judged against the documented exceptions",
    C04="element-level loss, duplication, reordering and failing factories, judged against a model of what must survive and be reported",
    C05="seeded schedules of drawing, registering, loading and adding threads plus restarts, judged against the set of ids in use",
    C06="seeded schedules of reader threads with a happens-before race detector; answers judged against an independent model and a lone reader",
    C07="seeded schedules of query threads with a happens-before race detector; answers judged against a plain scan",
    C08="seeded schedules of routing threads with a happens-before race detector; answers judged against a reference search",
    C09="seeded schedules of rule, matching, projection and factory callers with a happens-before race detector; answers judged against a lone caller",
    C10="seeded schedules of loads, writes and faults with a happens-before race detector; results judged against the generated model",
    C11="random add/submap histories with failing calls, refinement against an executable model after every step",
    C12="random mutation histories through all kinds of handles, judged against recomputation from raw data after every step",
    C13="random create/share/drop histories on a tracked heap: use after free, leaks and weak references judged by the simulator",
    C14="failing allocations at seeded positions of every kind of call, outcome, leaks and later answers judged",
    C15="throwing plug-ins at seeded positions, outcome and later answers judged",
    C16="validator runs on torn, truncated and failing files of a simulated disk, verdict judged",
    C17="the same map produced through different seeded histories (orders, restarts, heap layouts), routing answers compared",
)
NOTE = {}
NA = dict(
    N01="pure function of its arguments: no schedule, clock, I/O, fault or history for a simulator to control (its use from several threads is part of C09)",
    N02="pure geometry without concurrency, time, I/O or multi-party behaviour; the answer depends on the arguments only (concurrent first use is part of C06 and C07)",
    N03="pure function of tags; nothing for a simulator to schedule or to make fail (concurrent use is part of C09)",
    N04="the Python bindings are not part of the build in this sandbox and add no scheduling, time or I/O of their own",
)
