"""The deciding method of each check, for MANIFEST.json (read by gen_manifest.py)."""
PATHS = ("path-sensitive effect analysis over the syntax tree (typestate and ordering rules on every path)",
         "Static, nothing is run and no solver is used: every path of the functions named in the evidence is enumerated from the current "
         "source (helpers inlined, unknown branches forked, loops walked for a bounded number of iterations, so the rules are per "
         "iteration) and each rule is decided on all of them. Assumes that simpy and the standard library behave as documented and that "
         "user subclasses keep the documented override contracts.")
TERMS = ("path-sensitive value numbering (abstract evaluation to symbolic terms, compared as normal forms)",
         "Static, nothing is run and no solver is used: the functions are evaluated over unknown inputs to terms, forking on undecided "
         "branches, for each of a finite list of shapes (orders of the quantities, numbers of legs, sensors, states or records, kinds of "
         "events); terms are compared as exact rational or trigonometric normal forms, so each answer holds for every value of that shape. "
         "Bounded in the shapes, not in the values; reals instead of floating point; assumes simpy and the standard library behave as documented.")
BOTH = ("path-sensitive effect analysis plus symbolic value numbering over enumerated shapes",
        PATHS[1] + " Arithmetic and choices are decided by value numbering over an enumerated list of shapes.")
T = {
    "C09": TERMS, "C28": TERMS, "C29": TERMS, "C30": TERMS, "C31": TERMS, "C35": TERMS, "C43": TERMS, "C44": TERMS, "C45": TERMS, "C46": TERMS,
    "C04": BOTH, "C08": PATHS, "C22": BOTH, "C23": BOTH, "C24": BOTH, "C25": BOTH, "C26": BOTH, "C27": BOTH,
    "C12": ("protocol-automaton conformance: every path of the driving generators against every choice of their environment up to a depth", PATHS[1]),
    "C13": ("protocol-automaton conformance: every path of the driving generators against every choice of their environment up to a depth", PATHS[1]),
    "C14": ("protocol-automaton conformance: every path of the driving generators against every choice of their environment up to a depth", PATHS[1]),
    "C32": ("constant propagation over the conversion tables and their lookup function",
            "Static: the tables are folded exactly (decimals as written, the value converted stays a symbol) for every pair of accepted "
            "spellings; complete for the table in the source. Reals instead of floating point."),
    "C33": ("dimension and angle-unit analysis: trigonometric normal forms and their gradings under turning, scaling and change of unit",
            "Static: results are terms in unknown coordinates; units, argument order and turning invariance are read off the degrees of their "
            "monomials, formulas are compared as normal forms. Iterations (Vincenty) and numbers of points are bounded, values are not; "
            "accuracy and convergence of floating point are not decided."),
    "C34": ("whole-program kind inference of set-ordered values, plus effect rules for randomness, clocks and process state",
            "Static and flow-insensitive over all modules: any use whose effect, result or kept order can depend on the order of a set, on "
            "object identity, on the clock or on another generator is reported. User code is outside."),
    "C36": ("import and name resolution over the module graph",
            "Static: every module is imported abstractly first in turn, statement by statement, and every exported, imported or used name "
            "resolved; complete for the modules in the source."),
    "C39": ("cross-checking of sibling implementations: signatures, result shapes and units by abstract evaluation",
            "Static: signatures are bound against every call of the package and the protocol, results are evaluated to terms and their shapes "
            "and units compared. Floating point accuracy is not decided."),
}


def of(pid):
    t = T.get(pid, PATHS)
    return {"technique": t[0], "note": t[1]}
