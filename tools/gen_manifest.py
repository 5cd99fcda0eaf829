import json, sys, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/engine"); sys.path.insert(0, R); sys.setrecursionlimit(10000)
import rules
props = [json.loads(l) for l in open(R + "/properties.jsonl") if l.strip()]
NA = {
"N01": "accuracy of floating-point convergence under refinement: a numerical-analysis statement about limits, no static argument over the source bounds it (the update formulas themselves are decided by C09-C11)",
"N02": "convergence of perimeter and area under refinement quantifies over real-valued geometry and limits; the segment and area formulas are decided by C22, C23, C27",
"N03": "optimality of the multipliers is decided inside the external NLopt library at run time; its source is not part of this repository",
"N04": "a statement about the stationary distribution of a stochastic process over whole trajectories; the single-step formulas are decided by C21 and C36",
"N05": "depends on decimal rounding of each stored double by the C library's printf and strtod, values no static argument bounds",
}
SMT = "level 'other': static decision procedure. "
TECH = {
"C41": "static analysis: typestate of file handles over the gated value-flow summary (guards as BDDs), with exit-status dataflow",
"C42": "static analysis: output-sequence abstract interpretation (nested tape of text, values and record loops) compared with a reference sequence",
"C43": "static analysis: value-flow summary of the loaders plus stream typestate (extractions, end-of-file and failure tests against exits)",
"C44": "static analysis: call forwarding and string-construction dataflow over the gated summary",
"C45": "static analysis: effect analysis of the generator class (state read by draws against state determined by reseeding)",
"C46": "static analysis: definite-initialisation dataflow over every constructor by guarded abstract interpretation",
"C47": "static analysis: query over the type-checked syntax tree and the call graph (variable-length arrays, alloca, recursion)",
"C48": "static analysis: exit-effect analysis by guarded abstract interpretation, completion conditions compared with reference conditions, in each build configuration",
"C49": "static analysis: guard entailment at every index and index argument (BDD and linear arithmetic feasibility)",
"C50": "static analysis: type-checking of generated include orders in each configuration and a query over the compiler's intermediate code for strong definitions",
"C51": "static analysis: query over the type-checked syntax tree of the bindings against the C++ declarations (names, parameters, defaults, coverage)",
"C52": "static analysis: effect analysis (stores, growth and fills reaching the object, arguments or static storage) of every query and writer, callees included, by guarded abstract interpretation",
"C53": "static analysis: query over the type-checked syntax tree of all library sources and headers in both configurations (static storage, mutable members, stateful C routines)",
"C54": "static analysis: exit-guard analysis of each loop by guarded abstract interpretation, compared with the reference condition",
}
checks = []; na = []
for p in props:
    i = p["id"]
    if i in rules.RULES:
        d = (rules.RULES[i].__doc__ or "").strip()
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                       "technique": TECH.get(i) or rules.TECH.get(i, "static analysis: gated value-flow abstract interpretation of the AST (all loops summarised symbolically), compared with a reference transfer function by BDD/linear-arithmetic feasibility"),
                       "level": "other",
                       "level_note": "sound over reals and non-wrapping integers for the constructs modelled, all inputs at once; floating-point rounding, allocation failure and constructs reported as undecided are outside. " + d[:600],
                       "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; assert sys.version_info >= (3, 8)' && command -v clang++ >/dev/null && mkdir -p evidence", "checks": checks, "not_applicable": na}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable:", [x["property"] for x in na if x["property"] not in NA])
