"""Which steps decide each property."""
import os, sys
def vh(prop, name=None, flavor="asan", required=True):
    def step(c):
        binary = c["B"].build(flavor)
        r, p = c["run_vh"](binary, prop, c["seed"], c["tier"], c["tmp"], c["rdir"], c["cases"])
        r["name"] = name or prop
        if p.returncode not in (0, 1) and r["status"] != "violation": r["status"] = "error"
        if r["status"] == "pass" and r["cases"] == 0: r["status"], r["message"] = "error", "no case was run"
        return r
    return step

def selfcheck(c):
    r = vh("C00")(dict(c, cases=None))
    if r["status"] == "violation": r["status"] = "error"; r["message"] = "reference self-check failed: " + r["message"]
    return {"status": r["status"], "message": r.get("message", ""), "name": "reference-selfcheck (%d cases)" % r["cases"]}

def std(p): return lambda tier: [vh(p)]
PLANS = {p: std(p) for p in ["C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18", "C19", "C20", "C21", "C22"]}
PLANS["C01"] = lambda tier: [selfcheck, vh("C01")]

def py(c):
    sys.path.insert(0, os.path.join(c["VERIF"], "pybind"))
    import c16
    return c16.step(c)
PLANS["C16"] = lambda tier: [py]

TECH = {
 "C16": ("differential property-based testing of random call histories, Python module against C++ library", "Both sides use the same compiled library, so errors of the library itself are left to the other properties; runs under AddressSanitizer."),
 "C01": ("property-based testing against an executable reference semantics", "Trusts the reference semantics (checked against a pointwise definition of until and window scans on every run) and the tolerance 1e-6."),
 "C02": ("property-based testing: generated prefixes against generated completions", "Completions are sampled (three per prefix), so an unsound bound that only rare completions reveal can be missed."),
 "C03": ("stateful property-based testing: monotonicity invariant over the history of samples", "Jumping signals are compared at exactly representable times only."),
 "C04": ("property-based testing against reference interval semantics", "Claimed for one temporal level; nested formulas are covered by C02 and C03."),
 "C05": ("property-based testing against an executable reference semantics", "At decimal times the expected value is a hull over +-1e-6 in time."),
 "C06": ("property-based testing against an executable reference semantics", "Cases whose sign changes are decided by rounding are discarded and counted."),
 "C07": ("model-based property testing of operation sequences on signals", "Each step is compared with the pointwise definition applied to the previous real result."),
 "C08": ("property-based testing against reference signals, and differential against single-instant evaluation", "As C01 and C05."),
 "C09": ("stateful model-based testing: history against batch construction", "The oracle is the same code in a new object, so errors common to both are left to C01-C08."),
 "C10": ("stateful model-based testing over pools of objects", "As C09; runs under AddressSanitizer."),
 "C11": ("differential property-based testing (parameters against constants) with a reference semantics", "As C01."),
 "C12": ("grammar-based generation, differential between two writings of one specification", "The oracle is the fully parenthesised writing parsed by the same parser, evaluated, plus the reference tables of declarations."),
 "C13": ("structured fuzzing of texts and call sequences under AddressSanitizer and UBSan", "A hang is 60 CPU seconds in one case; complexity beyond that is not measured."),
 "C14": ("stateful model-based testing", "The model is a list of rows."),
 "C15": ("round-trip property testing", "Files are small (up to some tens of samples)."),
 "C17": ("stateful property-based testing with counted allocations", "Counts heap blocks through the AddressSanitizer allocation hooks; each case is played twice and the second run must leave no more live blocks than the first."),
 "C20": ("model-based testing of generated test suites", "Expected robustness comes from the same formula alone in a new driver; that value is left to C01-C08."),
 "C21": ("model-based testing of operation sequences", "The model is a list of samples."),
 "C22": ("round-trip property testing (display, parse, evaluate, display)", "Constants have a plain decimal form of at most 15 digits, bounds of intervals at most 6."),
 "C18": ("metamorphic property-based testing", "Independent of the reference semantics."),
 "C19": ("property-based testing against reference interval semantics with random bounds", "As C04."),
}
NOT_APPLICABLE = []
