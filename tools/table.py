"""Which harness units decide which property."""
UNITS = {
    "own": {"parts": 1},
    "comb": {"parts": 3},
    "cancel": {"parts": 4},
    "subj": {"parts": 2},
    "block": {"parts": 2},
    "move": {"parts": 3},
    "timed": {"parts": 4},
    "sched": {"parts": 4},
    "ops1": {"parts": 6},
    "ops2": {"parts": 8},
    "ops3": {"parts": 3},
    "ops4": {"parts": 3},
    "src": {"parts": 1},
    "forms": {"parts": 3},
    "disp": {"parts": 1},
    "res": {"parts": 1},
    "subjops": {"parts": 3},
    "conn": {"parts": 2},
    "strand": {"parts": 1},
    "qt": {"parts": 1, "cflags": ["-fPIC", "-I/usr/include/x86_64-linux-gnu/qt6/QtCore", "-I/usr/include/x86_64-linux-gnu/qt6", "-DQT_CORE_LIB"], "ldflags": ["-lQt6Core"], "env": {"QT_NO_GLIB": "1"}},
    "grpc": {"parts": 1, "ldflags": ["-lgrpc++", "-lgrpc", "-lgpr", "-labsl_synchronization"]},
    "ops1_erased": {"parts": 6, "src": "ops1.cpp", "cflags": ["-DRIG_DYN"]},
    "ops2_erased": {"parts": 8, "src": "ops2.cpp", "cflags": ["-DRIG_DYN"]},
}
HIST = "explicit-state exploration of the real code: every history of source events, cancellations and failures up to a depth, compared step by step with a reference model"
NOTE = "Exhaustive within the history depth, value domain and set of pipelines; see DESIGN.md."
CHECKS = {
    "C01": {"units": ["comb", "timed"], "quick_s": 60},
    "C02": {"units": ["comb", "timed"], "quick_s": 60},
    "C03": {"units": ["cancel"], "quick_s": 60},
    "C04": {"units": ["block"], "quick_s": 60},
    "C05": {"units": ["move"], "quick_s": 60},
    "C06": {"units": ["timed"], "quick_s": 60},
    "D01": {"units": ["disp"], "quick_s": 120},
    "D02": {"units": ["disp"], "quick_s": 120, "technique": HIST.replace("source events, cancellations and failures", "operations, also issued from inside of disposal actions,") + "; and all interleavings of short programs on shared disposables up to a preemption bound", "note": NOTE},
    "H01": {"units": ["sched"], "quick_s": 60},
    "H02": {"units": ["sched"], "quick_s": 60},
    "H03": {"units": ["sched"], "quick_s": 60},
    "H04": {"units": ["sched"], "quick_s": 60},
    "S01": {"units": ["subjops"], "quick_s": 60, "technique": HIST.replace("source events, cancellations and failures", "operations, also issued from inside of the subscribers' callbacks,"), "note": NOTE},
    "S02": {"units": ["subjops"], "quick_s": 60, "technique": HIST.replace("source events, cancellations and failures", "operations, also issued from inside of the subscribers' callbacks,"), "note": NOTE},
    "S03": {"units": ["subj"], "quick_s": 60},
    "S04": {"units": ["conn"], "quick_s": 60, "technique": HIST.replace("source events, cancellations and failures", "arrivals, departures, connections and source events, also from inside of callbacks,") + "; and all thread interleavings up to a preemption bound", "note": NOTE},
    "M01": {"units": ["comb", "cancel", "subj", "block", "move", "timed", "sched", "disp", "conn", "strand", "grpc"], "quick_s": 120, "thorough_s": 3000, "not_kinds": ["property"],
            "technique": "stateless model checking of the real code with happens-before race detection, freed-memory and deadlock detection on every execution"},
    "X01": {"units": ["strand"], "quick_s": 60, "technique": HIST.replace("history of source events, cancellations and failures", "program of tasks with delays, repetition, nesting, disposal and failure") + "; and all interleavings of feeding and polling threads up to a preemption bound", "note": NOTE},
    "X02": {"units": ["qt"], "quick_s": 60, "technique": HIST.replace("history of source events, cancellations and failures", "program of tasks and every history of signals, subscriptions, cancellations and the object's end"), "note": NOTE},
    "X03": {"units": ["grpc"], "quick_s": 60, "technique": HIST.replace("history of source events, cancellations and failures", "order of application events and transport callbacks") + "; and all interleavings of application and transport threads up to a preemption bound", "note": NOTE},
    "O01": {"units": ["ops1"], "quick_s": 90, "technique": HIST, "note": NOTE},
    "O02": {"units": ["ops1", "ops2", "ops3", "ops4"], "quick_s": 90, "technique": HIST, "note": NOTE},
    "O03": {"units": ["ops2"], "quick_s": 90, "technique": HIST, "note": NOTE},
    "O04": {"units": ["ops2"], "quick_s": 90, "technique": HIST, "note": NOTE},
    "O05": {"units": ["ops3"], "quick_s": 60, "technique": HIST, "note": NOTE},
    "O06": {"units": ["ops4", "subjops"], "quick_s": 60, "technique": HIST, "note": NOTE},
    "O07": {"units": ["own", "ops1", "ops2", "ops3", "ops4"], "quick_s": 90, "technique": HIST, "note": NOTE},
    "O08": {"units": ["res", "ops1", "ops2", "ops3", "ops4"], "quick_s": 90, "technique": HIST, "note": NOTE},
    "O09": {"units": ["ops1", "ops2", "ops3", "ops4"], "quick_s": 90, "technique": HIST, "note": NOTE},
    "R01": {"units": ["src", "ops2", "ops4"], "quick_s": 60, "technique": HIST, "note": NOTE},
    "R02": {"units": ["ops1", "ops2", "ops3", "ops4", "ops1_erased", "ops2_erased"], "quick_s": 120, "technique": HIST, "note": NOTE},
    "R03": {"units": ["forms"], "quick_s": 120, "technique": HIST.replace("source events, cancellations and failures", "calls an observable may make, at once and later, with cancellations and failures,"), "note": NOTE},
}
LEVEL_NOTE = {}
