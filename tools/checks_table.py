"""Which harness decides which property, and how each harness is built."""
AS = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
HARNESS = {
    "cm": {"src": ["cm.cpp"], "repo": ["controller_manager/src/controller_manager.cpp"], "flags": AS, "repo_flags": ["-finstrument-functions", "-finstrument-functions-exclude-file-list=/stubs/,/harness/,/_build/"]},
    "hw": {"src": ["hw.cpp"], "flags": AS},
    "tr": {"src": ["tr.cpp"], "flags": AS},
    "td": {"src": ["td.cpp"], "repo": ["transmission_interface/src/*.cpp"], "flags": AS, "libs": ["-ltinyxml"]},
    "jl": {"src": ["jl.cpp"], "flags": AS},
    "rc": {"src": ["rc.cpp"], "repo": ["combined_robot_hw/src/combined_robot_hw.cpp", "controller_manager/src/controller_manager.cpp"], "flags": AS},
    "h6": {"src": ["h6.cpp"], "repo": ["combined_robot_hw/src/combined_robot_hw.cpp", "controller_manager/src/controller_manager.cpp"], "flags": AS},
    "ct_tsan": {"src": ["ct.cpp"], "repo": ["controller_manager/src/controller_manager.cpp"], "flags": ["-fsanitize=thread", "-fno-omit-frame-pointer"], "harness_opt": ["-O1"], "repo_flags": ["-finstrument-functions"]},
    "ct_asan": {"src": ["ct.cpp"], "repo": ["controller_manager/src/controller_manager.cpp"], "flags": AS, "harness_opt": ["-O1"], "repo_flags": ["-finstrument-functions"]},
    "rt": {"src": ["rt.cpp"], "repo": ["controller_manager/src/controller_manager.cpp", "combined_robot_hw/src/combined_robot_hw.cpp"], "flags": [], "harness_opt": ["-O1"], "libs": ["-rdynamic", "-Wl,-z,now"], "repo_flags": ["-finstrument-functions", "-finstrument-functions-exclude-file-list=/stubs/,/harness/,/_build/"]},
    "py": {"python": "pt.py"},
    "ki": {"src": ["ki.cpp"], "flags": AS},
}
SIM = ["The hardware, controllers and loaders are monitored stand-ins; ROS itself is replaced by in-process stand-ins built from the repository's own message definitions",
       "Interleavings are explored at sleeps, log statements, callbacks and function entries of the manager (finer ones: C12)"]
CHECKS = {}
for i in range(1, 12):
    CHECKS["C%02d" % i] = {"harness": ["cm"], "technique": "runtime monitoring: offline trace oracle over event logs of random request/cycle histories, ASan+UBSan", "assumptions": SIM}
for i, t in zip(range(1, 6), ["map model of registries", "constructor null-matrix and whole-memory comparison of handle reads/writes", "claim-set model", "recursive model over random robot trees, live-instance counting", "multiplicity oracle with permutation"]):
    CHECKS["H%02d" % i] = {"harness": ["hw"], "technique": "runtime monitoring: online model oracle over random operation histories (" + t + "), ASan+UBSan", "assumptions": ["ROS console/time replaced by in-process stand-ins"]}
CHECKS["H06"] = {"harness": ["h6"], "technique": "runtime monitoring: online oracle (whole-robot memory comparison around every control cycle, callback log) over random robots, typed controllers and switches with the real controller manager, ASan+UBSan", "assumptions": ["Plugin loading, node handles and parameters replaced by in-process stand-ins"]}
CHECKS["K01"] = {"harness": ["ki"], "technique": "runtime monitoring: online oracle over random robots, controllers and hook outcomes, ASan+UBSan", "assumptions": ["ROS node handles replaced by in-process stand-ins"]}
for i, t in zip(range(1, 8), ["documented formulas in extended precision and round trips", "whole-arena bitwise comparison around every map", "constructor outcome oracle", "handle validity matrix and reference propagation with whole-memory comparison", "document generator with known content, mutated texts", "description generator with known parameters, faults and damage", "reference maps over random described robots, whole-state comparison after every propagation"]):
    CHECKS["T%02d" % i] = {"harness": ["tr" if i < 5 else "td"], "technique": "runtime monitoring: online oracle (" + t + "), ASan+UBSan", "assumptions": ["ROS console and plugin loading replaced by in-process stand-ins"]}
for i, t in zip(range(1, 8), ["interval-valued reference bounds over enforcement histories"] * 4 + ["twin handles enforced alone, over interface histories", "parameter matrix model", "URDF joint model"]):
    CHECKS["J%02d" % i] = {"harness": ["jl"], "technique": "runtime monitoring: online oracle (" + t + "), ASan+UBSan", "assumptions": ["Parameter server, node handles and the URDF joint structure replaced by in-process stand-ins", "Bounds are compared up to the rounding of their computation (8e-16 relative to the operands); the limits themselves without tolerance"]}
for i, t in zip(range(1, 4), ["reference filter over all parts' received lists", "call log and interface model over random part trees with faults", "reported-state model, and start-before-ready monitor in runs with the real controller manager"]):
    CHECKS["R%02d" % i] = {"harness": ["rc"], "technique": "runtime monitoring: online oracle (" + t + "), ASan+UBSan", "assumptions": ["Plugin loading, node handles and parameters replaced by in-process stand-ins; the parts are scripted plugins"]}
CHECKS["C12"] = {"harness": ["ct_tsan", "ct_asan"], "technique": "runtime monitoring: ThreadSanitizer and AddressSanitizer builds under real threads with injected delays; linearizability search over recorded requests, exactly-once bookkeeping, progress watchdog in control cycles", "assumptions": ["Schedules are those the operating system and the injected delays produce, not all of them", "ROS itself is replaced by in-process stand-ins that add no synchronisation between the threads"]}
CHECKS["C13"] = {"harness": ["rt"], "technique": "runtime monitoring: interposed allocation, locking and sleeping functions, and kernel system-call trapping (Syscall User Dispatch), armed while real-time code runs", "assumptions": SIM + ["Log statements of level INFO and above count as blocking (rosconsole locks, allocates and writes); DEBUG statements count as switched off"]}
for i, t in zip(range(1, 7), ["reference filter over random controller lists", "reference lookups over histories of simulated service and parameter worlds", "trace oracle over the requests a model manager received, with shutdowns and interference at any step", "trace oracle over polling histories and group definitions", "request sequences and answers against a model manager", "table contents, selections and requests in random user sessions with stand-in widgets"]):
    CHECKS["P%02d" % i] = {"harness": ["py"], "technique": "runtime monitoring: the real tools run against a simulated ROS world; " + t, "assumptions": ["rospy, rosservice, rosparam, Qt and the controller managers are stand-ins written after the documented behaviour of the originals", "Signals are handled between two requests of the main thread"]}
NOT_APPLICABLE = {}
