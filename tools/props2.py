prop("C12", "A specification means what the grammar says, and nothing else is accepted",
     "Parsing a text of the language defines exactly the signals, parameters and formulas written in it: with the grammar's precedence and grouping, its aliases, number forms, comments and free layout, the later of two declarations winning, and references meaning the formula defined so far; whether the text is given as a string, stream or file, at once or in several parts. A text outside the language is rejected: the parse reports failure, what was defined before stays as it was, and the driver keeps working.",
     ["inputs", "programs", "histories"], "all texts generated from the grammar with random layout and any nesting, all one-token mutations of them, all splits into several parse calls",
     "Tests parse fifteen files and only check the success flag, so a formula that parses into another formula is never noticed.",
     ["src/stl_parser.ypp", "src/stl_parser.cpp", "src/stl_scanner.ll", "src/stl_scanner.cpp", "src/stl_driver.cpp"], [("grammar and precedence", "src/stl_parser.ypp"), ("tokens", "src/stl_scanner.ll"), ("tables filled by the actions", "src/stl_driver.cpp")],
     ["STLDriver::parse_string/parse_file/parse_stream", "get_signals_names", "get_param", "get_online_rob", "display_formula"])
prop("C13", "No text, call or number crashes, hangs or corrupts anything",
     "Whatever text is parsed and whatever sequence of public calls is made with whatever arguments (unknown names, empty data, NaN, infinities, reversed or empty intervals, missing columns, any order), each call returns or throws std::invalid_argument or std::out_of_range: no memory error, no undefined behaviour, no endless or exponential computation, no other exception. The same text always gets the same verdict.",
     ["inputs", "histories", "programs"], "all byte strings and mutated specifications up to a few kilobytes, nesting up to hundreds of levels, all sequences of calls with arbitrary numbers",
     "Tests use valid specifications and data, with no sanitizer.",
     ["src/stl_driver.cpp", "src/stl_scanner.cpp", "src/stl_parser.cpp", "src/robustness.cpp", "src/interval_transducer.cpp", "src/stl_atom.cpp", "src/stl_monitor.cpp", "src/tools.cpp"], [("lookup of names", "src/stl_driver.cpp"), ("window computations over empty or short signals", "src/robustness.cpp")],
     ["every public call of STLDriver and STLMonitor"])
prop("C14", "Samples are accepted exactly when well formed, and stored as given",
     "A driver or monitor accepts a sample exactly when it has one value per signal after its time and its time is a number later than that of the last sample; it then appends it unchanged to its own data only. Any other sample is refused with std::invalid_argument, changing nothing.",
     ["histories", "inputs"], "all sequences of samples of any size and any doubles offered to drivers, monitors and their copies, before or after parsing",
     "Tests add well-formed samples and one malformed one.",
     ["src/stl_driver.cpp", "src/stl_monitor.cpp", "include/stl_driver.h", "include/stl_monitor.h"], [("validation of samples", "add_sample in src/stl_driver.cpp and stl_monitor")],
     ["STLDriver::add_sample", "STLMonitor::add_sample", "data"])
prop("C15", "Traces and results survive a round trip through files",
     "A trace written by the driver and read back is the same, number for number; a trace file is understood in any blank-separated layout, with or without final newline or trailing blanks, and reading one replaces the previous data, or returns false and says so if the file is missing. Dumping results writes for each formula its robustness at time 0, and printing a trace shows its values.",
     ["inputs", "histories"], "all traces of finite doubles (extreme exponents included), all layouts, all previous contents of the driver",
     "Tests read one trace file written by hand.",
     ["src/stl_driver.cpp", "src/tools.cpp"], [("dump_trace_file/read_trace_file", "src/stl_driver.cpp"), ("read_trace, print_trace", "src/tools.cpp")],
     ["dump_trace_file", "read_trace_file", "dump", "print_trace"])
prop("C17", "Every allocation is returned, and evaluation does not accumulate memory",
     "When the drivers, monitors, formulas and signals made by any sequence of operations are gone, all memory they used is returned, also after rejected texts and calls that throw. Evaluating again and again on the same data does not make memory grow.",
     ["histories", "programs", "inputs"], "all sequences of parsing (accepted or not), evaluating, copying, moving, clearing, tests and destruction",
     "Tests do not measure memory.",
     ["src/stl_driver.cpp", "src/stl_parser.ypp", "include/transducer.h", "src/robustness.cpp"], [("ownership of formulas", "include/transducer.h"), ("semantic values dropped by the parser", "src/stl_parser.ypp")],
     ["live heap blocks after the objects are destroyed"])
prop("C20", "Test suites report exactly what their formulas evaluate to",
     "Each run takes the next trace of the queue, in the order of the specification, and evaluates every test of it at time 0 on the driver's data, the test's own parameters overriding the global ones; a test is reported as a problem (PB, with its positive message) exactly when its robustness is positive, as OK (with its negative message) otherwise, and the log, the number of positive tests out of the total, and the error flag returned follow from these verdicts. The formulas and parameters of the driver, and copies of the driver, are unaffected; clearing the driver removes all tests, and running with none left does nothing.",
     ["programs", "inputs", "histories"], "all suites of traces and tests with local parameters, queued in one or several texts, copied, run and cleared; all data and modes",
     "One specification with tests is parsed and never run.",
     ["src/stl_driver.cpp", "src/stl_parser.ypp", "include/stl_driver.h"], [("queue of trace_test and stl_test", "include/stl_driver.h"), ("run_tests", "src/stl_driver.cpp")],
     ["STLDriver::run_tests, get_next_trace_test, nb_test_pos, nb_test_total, report, test_log, dump_test_log_file"])
prop("C21", "Signals built sample by sample hold exactly the samples given",
     "A signal built by appending samples, from arrays, by appending another signal or by ending it keeps the samples whose times increase, in order, with the slopes that join them (LINEAR) or zero slope (PREVIOUS), and the right begin and end times; its values, intersections, copies and printed form follow from these. Unknown names of semantics or interpolation are refused and change nothing.",
     ["inputs", "histories", "configurations"], "all sequences of appends, constructions, copies and queries, under both interpolations",
     "Tests build two signals by hand.",
     ["src/signal.cpp", "include/signal.h"], [("appendSample and friends", "src/signal.cpp"), ("Sample::valueAt, timeIntersect", "src/signal.cpp")],
     ["Signal::appendSample/appendSignal/addLastSample, Sample::valueAt, operator<<"])
prop("C16", "The Python module gives the same results as the library",
     "Every class, function and attribute of the Python module does what the C++ call of that name does: same values, same defaults, same refusals turned into Python exceptions, copies that are independent, and no crash whatever the order in which Python objects are created, used, copied, subclassed and deleted.",
     ["histories", "inputs"], "all histories of calls on drivers, monitors, signals, samples and their copies, garbage collection at any point",
     "The tests use the module with fixed inputs and never compare it with the library.",
     ["src/pybind11/main.cpp"], [("bindings", "src/pybind11/main.cpp")], ["the stlrom module"])
prop("C22", "What is displayed is what is in force",
     "The displayed form of any formula, read again by the parser, is the same formula: it has the same robustness on all data and for all values of its parameters, and it is displayed the same way again (numbers being shown with the digits of the output stream). Drivers and monitors show the same formulas, parameter values and signal names that they use.",
     ["programs", "inputs"], "all formulas over nested expressions, parameters and operators, all data",
     "Tests print formulas and compare nothing.",
     ["include/transducer.h", "include/signal_expr.h", "src/interval.cpp", "src/stl_driver.cpp", "include/stl_monitor.h"], [("print methods of the nodes", "include/transducer.h, include/signal_expr.h"), ("STLDriver::print", "src/stl_driver.cpp")],
     ["STLMonitor::display_formula, operator<<", "STLDriver::disp", "get_signals_names"])
