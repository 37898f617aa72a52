#!/usr/bin/env python3
"""check.py <property id>: runs the check of one property (see MANIFEST.json)."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import vlib  # noqa: E402

MB = "TLA+ specification model-checked by TLC; its behaviours replayed in the code"
CHECKS = {
    # property: (module[:function] in checks/, level, technique, note)
    "C11": ("scoped", "model_checking", MB,
            "Every behaviour of the specification up to the bound, and a "
            "seeded sample of long ones, replayed in the real containers "
            "with the whole observable content compared after each step."),
}
MBV = MB + "; recorded results judged by TLC"
SYM = ("Sym.tla gives every operation of the symbolic layer its exact "
       "(rational) meaning; all registers of a behaviour are compared with it "
       "after every step, at the specification's points and at random ones. ")
for n_, tech_, note_ in (
        (1, MB, "All programs over a small alphabet to depth 2 and a seeded "
         "sample of length-12 programs with copied, moved and aliased "
         "operands."),
        (2, MB, "Seeded programs with simultaneous substitutions, partial "
         "evaluation and expansion; the substitution lemma is checked on the "
         "specification. Capturing substitutions are a known finding."),
        (3, MB, "Derivatives compared with the specification's, itself checked "
         "against an independent dual-number definition."),
        (4, MB, "All formula programs over a small alphabet to depth 2 and a "
         "seeded sample; free variables compared exactly."),
        (5, MBV, "Laws on all pairs and triples of subterms of each behaviour, "
         "on a twin built by copying; comparison matrices judged by TLC."),
        (6, MB, "Truth and shape of the result in both conversion modes."),
        (7, MB, "Clause shape, the map's definitions, and the number of "
         "extensions to the auxiliary variables by enumeration, with one "
         "converter reused over the behaviour."),
        (8, MB, "Existence of an extension decided over the definitional "
         "candidates of the introduced variables, with reuse."),
        (9, MB, "Skeleton, inverse maps and injectivity with one abstractor "
         "reused over the behaviour."),
        (10, MBV, "Implications at points; the exact bounds of the real "
         "result are judged by TLC against DeltaTruth."),
        (16, MB, "An independent SMT-LIB reader evaluates the printed text; "
         "numerals must read back as constants of the tree."),
        (30, MB, "All behaviours of a small alphabet (every function and exponent at "
         "every grid value inside every strict operation) and a seeded sample of "
         "long ones; the specification says refused, number or some number, and "
         "each way of giving the variables values is compared."),
        (29, MB, "A reader with the conventional precedences evaluates the "
         "infix text; numerals must read back as constants of the tree."),
        (18, MBV, "The helpers' answers are recorded and judged by TLC against "
         "Shape definitions over the recorded tree.")):
    CHECKS["C%02d" % n_] = ("sym:c%02d" % n_, "model_checking", tech_,
                            SYM + note_)
for n_, f_, note_ in (
        (12, "c12", "Option values of several types against the history of "
         "settings; the code's value-and-source pair is checked to refine it."),
        (13, "c13", "All behaviours of one timer and a guard, sampled long "
         "ones of several, under a clock the behaviour advances; elapsed time "
         "compared to the nanosecond; the code's accumulator is checked to "
         "refine the log of running intervals."),
        (14, "c14", "The pool's algorithm, step by step, refines the abstract "
         "pool and terminates under fairness (TLC, small sizes); behaviours of "
         "the abstract pool are replayed with gated tasks, interposed lock "
         "functions that perturb the schedule and wake waiters spuriously, "
         "and concurrent submitters."),
        (15, "c15", "All behaviours of two sets and an environment over two "
         "variables, sampled long ones over more; every register compared "
         "after every step."),
        (17, "c17", "Parsed terms compared at points after every step; every "
         "name in the specification's tables; command texts."),
        (19, "c19", "Every nesting of guards to a bound and sampled deeper "
         "ones, left normally and by exceptions, with real signals and "
         "rounding; conversion cases around the powers of two.")):
    CHECKS["C%02d" % n_] = ("util:" + f_, "model_checking", MB, note_)
SHIM = (" The real solver, linked with a small stand-in for the IBEX library "
        "(see DESIGN.md).")
for k_, note_ in (
        ("20", "Seeded problems of eight type mixes under the search options: "
         "a solution on the specification's grid forbids unsat, and every "
         "corner of a returned model is checked against the weakened "
         "constraints."),
        ("21", "All histories of a small alphabet to a bound and a seeded "
         "sample of long ones, with four scopes, re-declared variables and "
         "formulas asserted again; every answer judged as in C20."),
        ("22", "Histories with quantifiers under every combination of options "
         "and one to four threads; every answer judged as in C20. If-then-else "
         "under a quantifier is a known finding."),
        ("27", "Histories of two contexts with options of their own, interleaved; "
         "each is judged as in C20 to C22."),
        ("28", "Seeded histories with goals of one or two objectives: no unsat "
         "where a minimum must exist, and no model worse than a point of the "
         "specification's grid in every objective."),
        ("23", "Seeded constraints, boxes and ways of combining contractors: what "
         "the specification knows to be a solution survives every pruning, and "
         "shrinking, changed dimensions, explanations, verdicts of the "
         "evaluators and termination are judged on every call."),
        ("26", "A seeded sample of scripts of eighteen commands; the "
         "specification translates every term to a core formula and keeps "
         "scopes, definitions and options; the real driver gets the text, "
         "command by command and at once. And .dr texts with as few "
         "parentheses as the precedences allow."),
        ("24", "All behaviours of two boxes over a small alphabet and a seeded "
         "sample over three boxes of six variables of every type, the whole "
         "observable content compared after every step."),
        ("25", "All behaviours over a small alphabet and a seeded sample; the "
         "specification gives the hull of the solutions for every bound.")):
    CHECKS["C" + k_] = ("solver:c" + k_, "model_checking", MB, note_ + SHIM)
NOT_APPLICABLE = {}

if __name__ == "__main__":
    prop = sys.argv[1]
    mod, level = CHECKS[prop][:2]
    name, _, func = mod.partition(":")
    m = importlib.import_module(name)
    sys.exit(vlib.main(prop, getattr(m, func or "run"), level))
