"""writes MANIFEST.json from the rules that exist"""
import json
import pathlib
import sys

R = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(R / "sa"))
import rules  # noqa: E402

AI = "static analysis: scenario-based abstract interpretation of the source (def-use terms, effects), "
TECH = {
    "C01": (AI + "ownership/mutation effect analysis", "Every write event of every read-only public call (all reachable branch decisions, one flip deep; two in thorough) is checked against the ownership of the written object."),
    "C02": (AI + "alias and escape analysis of the caller's table", "Aliasing between caller table and chain table is tracked through the model of DataFrame.copy and friends."),
    "C03": (AI + "ambient-input (rng, clock, hash order, global state) effect analysis", "Reads of unseeded random state, clocks, unordered iteration and state written by earlier calls are reported."),
    "C04": (AI + "reaching-value analysis of every option", "The value every option holds when read by plotting or summarising code is compared with the documented precedence."),
    "C05": (AI + "constant evaluation of the palette code", "The finite palette, alias and automatic colour tables are enumerated completely by constant propagation."),
    "C06": (AI + "typestate of axis ticks under blinding", "Tick state of each axis after each plot call is replayed from the abstract matplotlib events."),
    "C07": (AI + "parameter-identity (def-use leaves) of everything placed on an axis", "Each drawn term is attributed to the column leaves it depends on and compared with the axis' parameter."),
    "C08": (AI + "def-use of truth values into drawing calls", "Each truth/parameter/panel obligation is matched with a drawing event on the right axis and style."),
    "C09": (AI + "label provenance", "Every text shown for a parameter must derive from the label lookup of that parameter."),
    "C10": (AI + "weight-provenance and row-alignment dataflow", "Row-selection domain; weights of every weighted operation must be the same chain's weight column on the same rows."),
    "C11": (AI + "degree-of-homogeneity domain over def-use terms", "Degree in the weight scale is inferred for every output; definite non-zero degrees and absolute constants are reported."),
    "C12": (AI + "scale and shift equivariance domains over def-use terms", "Units inference per parameter: degree and translation coefficient of every output, and every comparison with a constant."),
    "C13": (AI + "algebraic normal form of the result terms", "Results are compared with raw minus minimum over exactly the reported chains."),
    "C14": (AI + "algebraic normal form of the result terms", "Differences of results are compared with the documented formulas as rational normal forms."),
    "C15": (AI + "row-provenance of the reported point", "Each coordinate must be an item of its own column at the position where the log posterior is maximal."),
    "C16": (AI + "guard reachability of constructor checks", "For each invalid input class the construction must reach a raise on the abstract input; for valid ones not."),
    "C17": (AI + "column-set and def-use analysis", "Columns reaching statistics and plots; writes by shifting."),
    "C18": (AI + "row partition and option-flow analysis of divide", "Row selections of all parts and values of all options are compared with the original."),
    "C19": (AI + "argument- and result-flow analysis of the diagnostics", "Per-chain verdicts, thresholds and their conjunction are matched as boolean terms."),
    "C20": (AI + "None-flow (nullability) analysis", "None values are injected in each optional position and must not reach arithmetic or drawing."),
    "C21": (AI + "cell counting over table string terms", "Rows and column specification of generated LaTeX are counted on the abstract strings."),
    "C22": (AI + "dispatch and quantile-form matching on result terms", "Results are matched with quantile/peak forms symbolic in the summary area."),
    "C23": (AI + "option-to-sink dataflow with multiplicity", "kde/power/smooth/height occurrences in each density term."),
    "C24": (AI + "event-order analysis of drawing and saving", "savefig events: path, dpi, figure identity and no drawing event afterwards."),
    "C25": (AI + "effect analysis of matplotlib settings", "All rc writes, their values and guards."),
    "C26": (AI + "shape and label provenance of matrices", "Shape, order and weight arguments of the covariance terms and correlation normal form."),
    "C27": (AI + "chain-identity (def-use leaves) of drawing calls", "Data, colour and style of each drawing event must come from one chain; coverage of all selected chains."),
    "C28": (AI + "normal form of the level terms", "Level arguments against the documented formulas; structure of the level surface."),
    "C29": (AI + "column-set analysis of the sampler conversions", "Kept variables, order and forwarded options for modelled sampler objects."),
    "C30": (AI + "registry state analysis", "Final registry state, exceptions and return values on every add/remove/get/set scenario."),
    "C31": (AI + "option-to-sink dataflow", "Each option's symbol must occur in (or control) the output events of its feature."),
    "C32": (AI + "template extraction with rational normal form of each placeholder", "Partition of the bounds by sign, decade and error ratio; a representative selects each cell's path, the placeholders are judged as terms."),
    "C33": (AI + "equality of displayed terms with the summary's", "Calculations are replaced by symbols per chain, parameter and statistic; bands, titles, error bars and cells must hold those get_summary reports."),
    "C34": (AI + "order (min/max) analysis of axis limits", "Limits are decomposed into min/max terms and compared with those of each chain drawn alone."),
    "C36": (AI + "position analysis", "Arrays of densities carry the symbolic positions of their entries; ends of the position arrays paired with them are compared as rational normal forms over bin edges and grid ends."),
    "C37": (AI + "relational comparison of def-use terms", "Two abstract consumers over tables holding the same columns and rows in different presentations (row labels, column order, names of the weight and log posterior columns) are driven through every reading call; results and drawing effects must be identical terms, where label-based and positional row access give different terms."),
    "C38": (AI + "relational comparison of def-use terms", "Calls with a selection are compared with the same calls on a consumer holding only the selected chains, panel by panel with figures of all parameters, and entry by entry with the full results; everything must be identical terms."),
    "C35": (AI + "row-selection analysis", "Arrays are abstracted to the rows they run over; the arrays of one call must agree and walks must be all rows in order."),
}
NA = {
    "N01": "a minimum over runtime densities: no abstract domain in reach bounds the mass or width of the chosen window; only the search's units, inputs and area parameter are checked (C12, C22)",
    "N02": "termination tolerance of a bisection over runtime densities cannot be bounded from the source",
    "N03": "a numerical convergence statement about runtime samples; bandwidth and weight provenance are checked instead (C10, C23)",
    "N04": "statistical error rates quantify over runtime samples; argument and verdict flow is checked instead (C19)",
    "N06": "a numerical statement about runtime histograms; level values and surface structure are checked instead (C28)",
    "N07": "a statistical statement about random draws",
    "N08": "depends on text extents computed by the renderer at run time",
}
props = [json.loads(x) for x in (R / "properties.jsonl").open()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in rules.RULES:
        t, note = TECH[i]
        checks.append({
            "property": i, "quick_cmd": f"python3 sa/driver.py {i} quick", "thorough_cmd": f"python3 sa/driver.py {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": t, "level": "other",
            "level_note": note + " Sound up to the library models in sa/lib_*.py, two generic elements for unknown-length iteration and small scopes of chains and parameters; undecided points are counted in the evidence, never reported as violations.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.exit(sys.version_info < (3, 10))\"", "checks": checks, "not_applicable": na}
(R / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
