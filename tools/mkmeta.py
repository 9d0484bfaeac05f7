#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, qtext, why, files, mech, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                technique=technique, note=note)

IN, HI, SC, CO, FA = "inputs", "histories", "schedules", "configurations", "fault_sequences"
NET, VE, VARS, FAC = "network.go", "ve/ve.go", "ve/variables.go", "ve/factor.go"
TUI = ["internal/tui/app.go", "internal/tui/input.go", "internal/tui/render.go", "internal/tui/node.go", "internal/tui/table.go", "internal/tui/solve.go", "internal/tui/bounds.go", "cmd/bbni/main.go"]

props = [
P("C01", "Posteriors are exact for every network, evidence and query",
  "For every valid network of chance variables, evidence of positive probability and set of query variables, the returned marginals are the exact conditional probabilities (to rounding), each summing to 1, and the returned joint factor is the exact unnormalized joint of query and evidence. Probability rows need not be normalized, outcome counts, parent orders and declaration orders are arbitrary.",
  [IN], "all networks, evidence sets and query lists", "Tests fix a handful of 3-6 node networks with known numbers; the claim is over all structures, cardinalities, table values, evidence and query sets.",
  [NET, VE, VARS, FAC], [("variable elimination", VE), ("row normalization and factor products", VARS)],
  "runtime monitor: differential oracle (joint enumeration) over generated queries", "Every answer is compared with joint enumeration (or an independently written elimination for larger networks); relative tolerance 1e-9."),
P("C02", "Impossible evidence is never answered with made-up probabilities",
  "When the evidence has probability zero, the joint factor is all zeros and every marginal is undefined (NaN), never a proper-looking distribution; evidence of tiny but positive probability is still answered exactly.",
  [IN], "all networks with deterministic or sparse tables and all evidence on them", "Existing tests never observe an impossible combination.",
  [NET, VE, VARS], [("normalization by the total", VARS)],
  "runtime monitor: differential oracle on zero-probability evidence", "Same oracle as C01 on networks and evidence chosen to hit probability zero and near zero."),
P("C03", "Answers do not depend on what was asked before; queries change nothing",
  "The answer to a query, utility query or policy computation depends only on the network definition, the trained tables and the last solved policies: any earlier sequence of calls, failed ones included, leaves it unchanged. Queries modify neither the network's variables and tables nor the caller's arguments nor results handed out earlier, and networks made from the same variables and factors do not affect each other.",
  [HI, IN], "all call sequences on one network", "Tests make one or two calls per network; the state kept between calls (policies, solver, shared tables) only matters in longer histories.",
  [NET, VE, VARS, "training.go"], [("fresh solver per call", NET), ("policies kept between calls", NET)],
  "runtime monitor: history monitor with snapshots of network, arguments and results", "Random histories; every answer is judged against the history-free reference and all live objects are compared with snapshots."),
P("C04", "Solved policies maximise expected utility",
  "For every decision network in which each decision observes all earlier decisions and what they observed, the solved policies choose, in every information state that can occur, only actions of maximal expected utility, and the strategy as a whole attains the maximum expected (weighted) utility. This holds for solving step by step and all at once, for any declaration order, and when the order of decisions is only implied by a path between them.",
  [IN], "all decision networks with perfect recall", "Tests contain four textbook decision networks with one known optimum each.",
  [NET, VE, VARS], [("backward induction over decisions", VE), ("argmax of the utility factor", VARS)],
  "runtime monitor: differential oracle (backward induction on the full joint)", "Optimal values from an independent backward induction; comparison up to 1e-9 of the utility scale."),
P("C05", "Every decision gets a policy that can be carried out, ties shared evenly",
  "Solving returns, for every decision of a valid network, a proper conditional distribution over its outcomes, given only variables known at the time of the decision; equally good actions share the probability evenly, also where a decision has no influence on utility at all. Solving again gives the same policies.",
  [IN, HI], "all decision networks, ties included", "No test has ties or decisions without influence beyond one case; conditioning sets are never checked.",
  [NET, VE, VARS], [("policy derivation with ties", VARS), ("temporal order and decision parents", VE)],
  "runtime monitor: invariant checker on solved policies, exact arithmetic ties", "Tie checks use networks whose arithmetic is exact in floating point."),
P("C06", "Expected utilities are exact, per node and weighted total",
  "For every network with utility nodes, evidence and query variables, the utility factor is the exact sum of probability times utility under the current policies, for each single utility node and for the total, where a total-utility node's weights apply. Normalizing it with the probability factor of the same query gives exact expected utilities.",
  [IN], "all networks with utility nodes, evidence and query sets, solved or not", "Tests check three networks with fixed numbers; weights, negative utilities and several utility nodes under evidence are not covered.",
  [NET, VE, VARS], [("sum of weighted utility factors", VE), ("utility weights", NET)],
  "runtime monitor: differential oracle (enumeration of probability times utility)", "Absolute tolerance 1e-9 relative to sum of P*|U|."),
P("C07", "Evidence on decisions conditions on or overrides policies, as asked",
  "Evidence on a solved decision conditions on what its policy would do, unless policies are to be ignored, in which case the decision is fixed by intervention: its own policy is cut and every other policy stays in force. Decisions that were never solved can be fixed by evidence or queried, giving probabilities and expected utilities per option.",
  [IN, HI], "all decision networks, evidence subsets over decisions and chance variables, both modes", "One test uses the override on one decision.",
  [NET, VE], [("policy factors skipped for evidence", NET)],
  "runtime monitor: differential oracle (interventional and conditional reference)", "Reference joint uses the policies returned by the library."),
P("C08", "Factor operations compute what they are named after, and leave operands alone",
  "Product, sum, summing out, restriction, marginal, rearrangement, normalization (overall and per variable), inversion and policy extraction return, for factors over any variables in any order, the mathematically defined factor with the expected variables, and leave their operands unchanged.",
  [IN], "all factors, scopes, orders and cardinalities (1 to 300 outcomes)", "Unit tests use two or three binary factors per operation.",
  [VARS, FAC], [("index mapping between scopes", VARS), ("index arithmetic", FAC)],
  "runtime monitor: pointwise oracle and operand snapshots", "Each result compared at every assignment."),
P("C09", "The low-level elimination engine is exact for arbitrary factor sets",
  "For any set of factors over chance variables, evidence and query, variable elimination returns a factor over exactly the query variables (unsolved decisions and what they observe may remain) equal to the enumerated sum of products; the same holds with utility factors and weights, and solving leaves the given factors and lists unchanged. Duplicate variable ids are refused.",
  [IN], "all factor sets, not only conditional distributions", "Tests build two engine instances by hand.",
  [VE, VARS], [("elimination order and factor bookkeeping", VE)],
  "runtime monitor: differential oracle on engine calls", "Exact enumeration per call."),
P("C10", "Saving a network as YAML and loading it gives back the same network",
  "Writing any network as YAML and reading it back gives the same name, info text, variables, outcomes, types, positions, colors, parents and bit-for-bit the same numbers (the sign of zero aside), trained or untrained, and writing does not change the network. Writing the re-read network gives the same text.",
  [IN], "all networks, names and texts including YAML-significant ones, extreme numbers", "Tests round-trip one example file.",
  ["yml.go", NET], [("marshalling", "yml.go")],
  "runtime monitor: round-trip oracle", "Info texts beginning with a line break are excluded: the YAML library itself drops it."),
P("C11", "YAML, BIF-XML and the constructor describe the same network",
  "One description given through the constructor, as YAML in any valid spelling, or as BIF-XML in any order of elements, yields networks that expose the same definition and give the exact answers; files are recognised by extension in any case and unknown extensions are refused.",
  [IN, CO], "all descriptions and their textual variants", "Tests load one file per format and compare a few numbers.",
  ["yml.go", "xml.go", NET], [("parsing", "yml.go"), ("parsing", "xml.go")],
  "runtime monitor: cross-format differential oracle", "Texts are produced by independent writers in the harness."),
P("C12", "Malformed descriptions and queries are refused with an error, never a crash",
  "A description that is not a valid network (wrong table size, unknown or repeated parents, duplicate variables, cycles, unknown types, fields, operators or colors, inconsistent utilities, broken markup) is refused with an error at loading or, for inconsistencies between utilities, at the first solving; invalid evidence and query variables are refused with an error. Neither the library nor the command line tools panic on any YAML or BIF-XML text or on any query of a network they accepted.",
  [IN, FA], "all descriptions, texts and queries", "Tests cover two malformed networks.",
  ["yml.go", "xml.go", NET, "logic/factor.go", "cmd/bbn/main.go", "cmd/bbni/main.go"], [("validation at construction", NET), ("validation of queries", NET)],
  "runtime monitor: crash/acceptance monitor over mutated descriptions and queries", "Single defects injected into valid networks plus byte- and token-level mutation."),
P("C13", "Logic operators have their documented truth tables",
  "Every logic operator, by name in a file or by constructor, yields for any valid arguments and number of parents the documented truth table with the parents in declared order, independent of other instances in use; wrong arguments, parent counts and names are refused with an error. In a network, the truth table is what queries use.",
  [IN, HI], "all operators, arguments, parent counts and instance histories", "Tests check most operators at one arity.",
  ["logic/factor.go", "logic/simple.go", "logic/given.go", "logic/count.go", "logic/outcome.go", "logic/bits.go", "yml.go"], [("operator registry", "logic/factor.go")],
  "runtime monitor: truth-table oracle", "outcome-greater includes the index itself, pinned by a unit test: recorded as known finding."),
P("C14", "Training yields the conditional frequencies and means of the data",
  "After training, every chance table holds the conditional relative frequencies and every utility table the conditional means over the samples complete for that variable, whatever the order of samples and whether or not the network had tables before; decisions and total-utility weights stay. If a table row has no data, training fails and the network stays exactly as it was.",
  [IN, HI], "all networks and sample sequences with unknown values", "Tests train one network on complete data.",
  ["training.go", NET], [("counting and means", "training.go")],
  "runtime monitor: reference counting oracle and snapshots", "Values compared to 1e-12."),
P("C15", "bbn train reads the data file correctly and prints the trained network",
  "For every network file and CSV file with columns in any order, further columns, any delimiter and no-data value, the train command prints the network with the conditional frequencies and means of the data, all else unchanged. Unusable data, options or files end with an error message and exit status 1, print no network and change no file.",
  [IN, CO], "all networks, data files and option combinations", "The command's tests are commented out.",
  ["cmd/bbn/train.go", "internal/tui/training.go", "training.go", "yml.go"], [("column lookup, no-data handling", "internal/tui/training.go")],
  "runtime monitor: process-level differential oracle", "Real binary built from the tree."),
P("C16", "bbn inference prints exact posteriors and utilities",
  "For every network file and evidence, the inference command prints for each variable its outcomes and the exact posterior percentages, for utility nodes the exact expected utility and total, and marks evidence; for impossible evidence it prints no figures. Invalid evidence or files end with an error message and exit status 1.",
  [IN, CO], "all network files and evidence arguments", "One smoke test without checking numbers.",
  ["cmd/bbn/inference.go", "internal/tui/solve.go", "internal/tui/util.go", NET], [("solving for all nodes", "internal/tui/solve.go")],
  "runtime monitor: process-level differential oracle on printed figures", "Figures compared at printed precision."),
P("C17", "Networks used from different goroutines do not interfere",
  "Loading, solving, querying, training and writing different networks from different goroutines at the same time, logic networks included and with argument lists in common, is free of data races and gives the same results as doing it one after the other.",
  [SC, IN], "all interleavings of operations on distinct networks", "No concurrent test exists.",
  [NET, VE, "logic/factor.go", "yml.go", "xml.go", "training.go"], [("no shared mutable package state", "logic/factor.go")],
  "race detector plus sequential-equivalence monitor under concurrent stress", "Go race detector on the real code, yields injected between calls; interleavings are sampled."),
P("C18", "bbni always displays the exact values for the evidence entered",
  "After any sequence of key and mouse input, every node box shows the exact posterior, utilities and evidence marks for the evidence the input has set and for the chosen policy mode, and the table dialog of a node shows its table (or solved policy) with the right outcomes. The dialog of a table too large for it can be scrolled to every cell. Escape, Enter and mouse clicks, on a dialog or beside it, close the dialog and change nothing else. Training data, initial evidence and delimiter options given at start take effect; unusable ones end it with an error message and exit status 1.",
  [HI, IN], "all input histories on all networks", "The interactive app has no behavioural test.",
  TUI, [("event handling and evidence", "internal/tui/input.go"), ("rendering", "internal/tui/node.go")],
  "runtime monitor: terminal-emulating trace checker against an input model", "Real binary under a pseudo terminal; the screen is emulated and judged after every step."),
P("C19", "bbni never crashes or hangs, whatever the input",
  "No sequence of keys, mouse events and terminal sizes makes the interactive app crash, hang or leave the terminal unrestored; Escape on the main screen always ends it with exit status 0.",
  [HI, IN, CO], "all input histories, networks and terminal sizes", "The interactive app has no behavioural test.",
  TUI, [("event handling", "internal/tui/input.go")],
  "runtime monitor: crash/liveness monitor under input stress, race-detector build", "Real binary, race-instrumented, under a pseudo terminal."),
P("C20", "Saving in bbni writes the network as loaded, with moved positions only",
  "Saving in bbni writes, next to the input file, a network file that reads back as the loaded (or trained) network with node positions as moved by the user and everything else unchanged, whatever evidence is set; the input file is untouched. Where the file cannot be written the app reports it and carries on.",
  [HI, IN, FA], "all networks, input histories before saving, write failures", "The interactive app has no behavioural test.",
  ["internal/tui/app.go", "internal/tui/input.go", "yml.go"], [("save", "internal/tui/app.go")],
  "runtime monitor: process-level round-trip oracle with injected write failures", "Real binary under a pseudo terminal."),
P("C21", "Factor entries are addressed consistently",
  "For any factor, reading, writing and row access by outcome combination address exactly the entry the row-major order of its variables defines, index and outcome conversions are inverse to each other, and rows are complete; index lists of the wrong length are refused, and missing data is reported.",
  [IN], "all factors, scopes and outcome counts", "Unit tests check two small factors.",
  [FAC, NET], [("index arithmetic", FAC)],
  "runtime monitor: pointwise addressing oracle", "Every entry of every generated factor is addressed."),
P("C22", "The same network and calls always give the identical result",
  "Repeating the same calls on the same description, in the same process or another one, gives identical results to the last bit: posteriors, joint factors and their variable order, utilities, policies, trained tables and written text. Evidence order on the command line plays no role.",
  [IN, HI, SC], "all networks and call sequences, every run of the program", "A test run sees one random map order.",
  [VE, NET, "cmd/bbn/inference.go"], [("fixed factor and evidence order", VE)],
  "runtime monitor: repeated-execution transcript comparison", "Go randomizes map iteration per run; six executions each."),
P("C23", "bbni draws the network as declared and shows its info text",
  "For any network and node positions, and after any moves, every box is drawn at its position (later ones on top) in its color, and between boxes that do not overlap there is exactly one arrow for each declared parent, from parent to child with its head at the child; nothing else is drawn, and nothing of earlier drawings stays. The color of the frame tells whether policies are ignored. An info text is shown at the start and on request, and scrolling through it shows all of it.",
  [IN, HI], "all networks, positions, histories of moves and info texts", "Nothing of the drawing is tested.",
  ["internal/tui/render.go", "internal/tui/app.go", "internal/tui/node.go"], [("arrows", "internal/tui/render.go"), ("info dialog", "internal/tui/app.go")],
  "runtime monitor: pseudo terminal with a screen model of the whole canvas", "Every cell of the graph is judged, colors of boxes included; wide characters are not used."),
P("C24", "Queries on sparse networks of hundreds of variables stay feasible",
  "On networks of narrow structure (chains, trees, stars, polytrees with few parents, rings, grids of width up to 4) with hundreds of variables, declared in any order and with any evidence, a query for one or two variables, the expected utility of a single utility node or the total of two, and solving a single decision that observes little need memory and time in proportion to the size of the network (or a small power of it), not exponential in it, and give the exact values; bbn inference answers for such networks as well.",
  [IN], "all narrow networks, declaration orders, evidence and query variables", "Tests use networks of up to a dozen variables, where any elimination order will do.",
  [VE, VARS, NET], [("elimination order", VE)],
  "runtime monitor: allocation meter and time limit on calls, differential oracle", "Bytes allocated per call (32 MB plus 0.2 MB per variable allowed, about twenty times what is needed), memory limit on the process, time limit per case; values compared with an independent elimination."),
]

impl = set(open(os.path.join(here, "tools", "implemented.txt")).read().split())
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": ["public API and tool output"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"] + " Executions are sampled: no claim beyond the executions observed (see evidence).",
    } for p in props if p["id"] in impl],
    "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in impl],
    "notes": "No hooks in /repo: the monitors are compiled into the module through a build overlay and use the public API, the internal tui package is observed through the real binaries under a pseudo terminal.",
}
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
