"""Writes /verif/MANIFEST.json: one check per rule module, the rest not applicable."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = dict(
 C01="alias and mutation analysis over all paths (abstract interpretation)",
 C02="definite assignment and effect analysis of reducer state",
 C03="value numbering of column selection, results and chain merge",
 C04="path-sensitive provenance of configuration layering",
 C05="whole-program agreement of column tables",
 C06="effect analysis of columns, disjointness of switch and setting names",
 C07="symbolic shape inference",
 C08="interval analysis with bounds relative to the number of samples",
 C09="attribute-set agreement and field provenance (value numbering)",
 C10="difference-bound reasoning on path conditions, value numbering",
 C11="guard dominance and lookup provenance",
 C12="event-order (typestate) analysis of buffer, flush and close",
 C13="provenance and event-order analysis of the append mode",
 C14="guard dominance, effect and release analysis of the readers",
 C15="value numbering of row ranges and event lookup",
 C16="event counting on every path, provenance of counters, path guard",
 C17="producer/consumer key-table agreement",
 C18="value numbering of buffer index, content and subtraction",
 C19="lockstep counting in the table-building loop (value numbering)",
 C20="typestate: change of a parameter followed by a rebuild",
 C21="saved/restored key agreement with provenance",
 C22="argument binding by name and index agreement",
 C23="reset-before-use of fit state, ordering of stored results",
 C24="provenance of merge, save, load and combination",
 C25="interval analysis of the stepping loop, shape and stage order",
 C26="single accumulation per path, sibling formula agreement",
 C27="alias and mutation analysis, provenance of derived metadata",
 C28="event-order analysis of figure saving",
 C29="name, attribute and keyword resolution against package and libraries",
 C30="discovery closure and factory lookup provenance",
 C38="accessor paths compared with reference terms by value numbering, branch facts at refusals",
 C39="pipeline composition and stored tables as normalised terms, event order, column type ranges",
 C34="inductive invariant as a rational-function identity over the symbolic update terms",
 C35="normal form of exponential-polynomial formulas compared with the documented ones",
 C36="interval evaluation of array slices over all orderings of shift and length, term matching of reductions",
 C37="global value numbering of the conversions: normal forms, position-wise evaluation of repeated arrays, case table over given and absent values, structure of patterns",
)
NA = dict(
 C31="quantifies over noise, pulse amplitude and time: a numerical accuracy statement about run-time values; no structural argument bounds the extraction error",
 C32="positivity, finiteness and normalisation of a truncated infinite sum over real parameters is a numerical fact; nothing in the shape of the code decides it",
 C33="convergence of an external minimiser (iminuit) on random data is not visible in the source",
)
NOTE = ("Static, from /repo's current source on every run, all paths of the anchored entry points, no execution and no solver. "
        "Decides the structural clauses listed in the evidence's explanation; a construct the abstract interpreter does not "
        "understand is reported as undecided (not as a violation). Trusts the engine in sa/ and its models of builtins, numpy and pandas calls as uninterpreted but distinct operations.")
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "sa/rules/%s.py" % i.lower())):
        checks.append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s --thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique="static analysis: " + TECH[i], level="other", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet: rule under construction")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
