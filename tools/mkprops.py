#!/usr/bin/env python3
"""Writes properties.jsonl (kept here because JSON lines are unpleasant to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}})

prop("C01", "On complete data the robustness is the exact quantitative semantics of STL",
     "For every STL formula and every trace whose samples cover the formula's horizon, the robustness reported at a time t (by a driver or a monitor) equals the quantitative semantics of the formula at t: predicates are signed differences, and/or/not/implies are min/max/negation, ev/alw are sup/inf over the closed window [t+a,t+b], until_[a,b] is the sup over t' in the window of min(right operand at t', inf of the left operand on [t,t']), with signals interpolated linearly between samples and held constant before the first one. On such data the reported lower and upper bounds coincide with the robustness.",
     ["inputs", "programs"], "all formulas (predicates over linear and nonlinear expressions, Boolean and timed operators, any nesting), all traces covering the horizon (regular or not, integer or decimal times, times a millionth apart, late start, times far from 0, values from 1e-9 to millions, up to 300 samples and 12 signals), all evaluation times",
     "The tests evaluate about a dozen fixed formulas on fixed traces; the algorithms (sliding windows, segment-wise until, crossings) have many orderings of breakpoints that only arbitrary formulas and traces reach.",
     ["src/robustness.cpp", "src/transducer.cpp", "src/interval_transducer.cpp", "src/stl_atom.cpp", "src/signal_expr.cpp", "src/signal.cpp"],
     [("segment-wise and/or/eventually/until", "src/robustness.cpp"), ("horizon propagation", "src/transducer.cpp init_horizon"), ("Lemire sliding window", "src/robustness.cpp plateauMax/plateauMin")],
     ["STLDriver::get_online_rob", "STLMonitor::eval_rob"])
prop("C02", "The robustness interval on partial data contains every possible outcome",
     "Whatever prefix of a trace has been given, the reported lower bound is at most, and the upper bound at least, the robustness that the formula will have once the trace is completed, for every possible completion with values within the global bound BigM. The interval is never empty.",
     ["inputs", "programs", "histories"], "all formulas, all traces, all prefixes of them, all continuations of the prefix up to the horizon; LINEAR and PREVIOUS interpolation, space and left-time robustness",
     "Tests check a few intervals on one trace; soundness quantifies over all continuations.",
     ["src/interval_transducer.cpp", "src/update_transducer.cpp", "src/stl_atom.cpp", "src/robustness.cpp"],
     [("lower and upper robustness signals", "src/interval_transducer.cpp"), ("TOP/BOTTOM for unknown values", "include/signal.h")],
     ["STLDriver::get_online_rob [1], [2]", "STLMonitor::get_lower_rob/get_upper_rob"])
prop("C03", "The robustness interval only shrinks as samples arrive, and converges",
     "When samples are appended one by one (with predicate values within BigM), the lower bound never decreases and the upper bound never increases; once the data cover the horizon of the formula, lower bound, upper bound and robustness coincide, and no later sample changes them.",
     ["histories", "inputs"], "all formulas, all traces and every prefix in order",
     "Tests look at one or two prefixes of one trace.",
     ["src/interval_transducer.cpp", "src/stl_atom.cpp", "src/stl_driver.cpp"],
     [("lower and upper robustness signals", "src/interval_transducer.cpp"), ("horizon propagation", "src/transducer.cpp")],
     ["STLDriver::get_online_rob after each add_sample"])
prop("C04", "The interval is as tight as the data allow",
     "For formulas without nested temporal operators the reported interval on any prefix of a trace whose predicate values lie within BigM is exactly the robust interval semantics: every predicate value at an instant up to the last sample is known, every later one is anywhere in [-BigM, BigM], and min/max/sup/inf/until are applied to the bounds.",
     ["inputs", "programs", "histories"], "all formulas with at most one level of temporal operators (until included) over any Boolean structure, all traces and prefixes",
     "A sound but useless interval (e.g. always [-BigM, BigM]) passes any soundness test; tests pin three intervals.",
     ["src/interval_transducer.cpp", "src/stl_atom.cpp"], [("lower and upper robustness signals", "src/interval_transducer.cpp")],
     ["STLDriver::get_online_rob [1], [2]"])
prop("C05", "PREVIOUS interpolation: the exact semantics of piecewise-constant signals",
     "With interpolation PREVIOUS, and data covering the horizon, robustness and both bounds equal the quantitative semantics of STL where every signal keeps the value of its last sample until the next one (right-continuous steps), also for jumps exactly at the ends of windows.",
     ["inputs", "programs", "configurations"], "all formulas, all complete traces, all evaluation times, PREVIOUS interpolation",
     "One notebook touches PREVIOUS; jumps at window ends need specific coincidences of sample times and bounds.",
     ["src/signal.cpp", "src/stl_atom.cpp", "src/robustness.cpp"], [("appendSample with the interpolation mode", "src/signal.cpp"), ("plateauMax/plateauMin at discontinuities", "src/robustness.cpp")],
     ["STLDriver::get_online_rob with set_interpol(\"PREVIOUS\")"])
prop("C06", "Left and right time robustness of every formula",
     "Under LEFT_TIME (RIGHT_TIME) semantics each predicate has, at every instant, the sign of its truth value and as magnitude the time for which it has had (will keep) that truth value within the part of the trace the formula looks at; Boolean and temporal operators combine these values as in the space semantics.",
     ["inputs", "programs", "configurations"], "all formulas, all complete traces, LEFT_TIME and RIGHT_TIME, LINEAR and PREVIOUS interpolation",
     "One notebook evaluates one formula on one trace for two semantics.",
     ["src/robustness.cpp", "src/stl_atom.cpp", "src/interval_transducer.cpp"], [("compute_left_time_rob/compute_right_time_rob", "src/robustness.cpp"), ("compute_boolean", "src/robustness.cpp")],
     ["STLDriver::get_online_rob with set_semantics"])
prop("C07", "Every operation on signals equals its pointwise definition",
     "For all well-formed signals, each public signal operation (not, and, or, implies, eventually, globally, their bounded and timed versions, until, timed until, Boolean and time-robustness signals, shift, simplify, resize) yields a well-formed signal, with samples in order and the right domain, whose value at every instant is the pointwise definition of the operation. The previous content of the result object plays no role.",
     ["inputs", "programs"], "all signals (LINEAR with slopes and jumps, or PREVIOUS; single instants; values at the very end), all compositions of up to four operations, all non-negative bounds, result objects fresh or already used",
     "Tests apply three operations to two signals of a few samples.",
     ["src/robustness.cpp", "src/signal.cpp", "include/signal.h"], [("segment-wise algorithms", "src/robustness.cpp"), ("simplify, resize, shift", "src/signal.cpp")],
     ["Signal::compute_*", "Signal::resize/shift/simplify"])
prop("C08", "Evaluation over an interval gives the robustness at every instant of it",
     "Evaluating a monitor over [s,e] on data covering the horizon leaves a robustness signal defined on [s,e] whose value at every instant is the robustness of the formula there; its value at s is what the evaluation returns, and agrees with evaluating at that instant alone.",
     ["inputs", "programs"], "all formulas, complete traces and intervals [s,e]; all interpolations and semantics",
     "Tests evaluate at single instants; get_signal is never compared with anything.",
     ["src/stl_monitor.cpp", "src/transducer.cpp", "src/robustness.cpp"], [("set_horizon(start, end)", "src/transducer.cpp"), ("get_signal", "include/stl_monitor.h")],
     ["STLMonitor::eval_rob(s, e)", "STLMonitor::get_signal"])
prop("C09", "Results depend on the current state only, not on the history",
     "After any sequence of additions of samples, evaluations, changes of parameters, semantics or interpolation, resets, further parsing and rejected calls, a driver or monitor gives exactly the results that a new one gives when loaded at once with the same formulas, parameters, data and modes. Evaluating has no effect on later results, and rejected samples, parameters, modes or texts change nothing.",
     ["histories"], "all histories of up to 17 operations on one driver and its monitors",
     "Tests run one straight-line history each.",
     ["src/stl_driver.cpp", "src/stl_monitor.cpp", "src/transducer.cpp", "include/stl_monitor.h"], [("reset before each evaluation", "src/stl_driver.cpp get_online_rob"), ("rebinding of data and parameters", "src/stl_monitor.cpp eval_rob")],
     ["STLDriver::get_online_rob", "STLMonitor::eval_rob", "getters"])
prop("C10", "Drivers, monitors and their copies are independent of each other",
     "A monitor obtained from a driver, and a copy of a driver or a monitor, has its own formula, data, parameters and modes: no operation on, move from or destruction of any other object changes its state or its results, even when their evaluations are interleaved.",
     ["histories"], "all histories of up to 23 operations on up to seven drivers and monitors, with copy/move construction and assignment (self-assignment included) and destruction in any order",
     "Tests never keep two objects whose life or evaluations overlap in this way.",
     ["src/stl_driver.cpp", "include/stl_monitor.h", "include/transducer.h"], [("deep copies by clone()", "include/transducer.h"), ("static semantics/interpolation set before each evaluation", "src/stl_monitor.cpp")],
     ["STLDriver::get_monitor", "copy and move operations"])
prop("C11", "Parameters act exactly like constants, wherever they occur",
     "A formula using parameters in expressions or interval bounds has the robustness of the formula with their current values written instead. Changing a parameter of a driver, by call or by declaring it again, affects every later evaluation and every monitor made later, and no monitor made before; changing one of a monitor affects that monitor only, and reading a parameter gives the value last set.",
     ["inputs", "programs", "histories"], "all formulas with parameters in expressions and bounds, all pairs of valuations, all complete traces",
     "Tests set one or two parameters of one formula.",
     ["src/transducer.cpp", "src/stl_driver.cpp", "include/stl_monitor.h", "src/stl_atom.cpp"], [("get_param lookup", "src/transducer.cpp"), ("set_param", "src/stl_driver.cpp, include/stl_monitor.h")],
     ["set_param/get_param", "get_online_rob", "eval_rob"])
prop("C18", "The laws of STL hold for the reported robustness",
     "Equivalent formulas have equal robustness and formulas ordered by implication have ordered robustness: double negation, De Morgan, implication, ev/alw duality, nesting and splitting of windows, distribution over or/and, decomposition of until, until with a trivial operand, monotonicity, absorption. The robustness is also invariant under samples added on the segments or after the horizon, a common shift of all times, and renaming and reordering the signals.",
     ["inputs", "programs"], "twenty laws, all formulas and traces they are instantiated with",
     "A law relates infinitely many pairs of formulas; tests have no metamorphic pairs.",
     ["src/robustness.cpp", "src/transducer.cpp", "src/interval_transducer.cpp", "src/stl_atom.cpp"], [("node-wise evaluation", "src/transducer.cpp")],
     ["STLDriver::get_online_rob"])
prop("C19", "Unknown values are bounded by the BigM in force, and only by it",
     "After setting the global bound to any M that the known predicate values do not exceed, unknown parts of the data contribute exactly -M and +M to the reported bounds, also in objects made before; a new monitor reports [-M, M], reading the bound gives back M, and results on complete data never depend on it, even where values exceed it.",
     ["configurations", "inputs", "programs"], "all values of BigM (above the known values on partial data, any on complete data), changed up to three times in the life of a driver, its monitors and copies; all formulas with one level of temporal operators on partial data, all formulas on complete data",
     "One test sets and reads back the value 1000.",
     ["include/signal.h", "src/signal.cpp", "src/stl_driver.cpp", "src/interval_transducer.cpp"], [("TOP and BOTTOM", "include/signal.h")],
     ["Signal::set_BigM/get_BigM", "get_online_rob"])
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")) else None
P.sort(key=lambda p: p["id"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
