#!/usr/bin/env python3
"""Writes techniques.json: the deciding method and its limits per property."""
import json, os
T = "TLA+/TLC: "
t = {
"P01": (T + "PlanTrace.tla replays every printed plan (actions and decomposition tree) as a behaviour of HTN.tla", "instances and options sampled (seeded); every plan printed is decided exactly"),
"P02": (T + "HtnSearch.tla explores all progressions of each instance (exhaustively if acyclic, to a network size otherwise); a solution found contradicts an 'unsolvable' of the real search", "instances with at most a few thousand nodes; on recursive instances 'unsolvable' is refuted only by solutions within the network bound"),
"P03": (T + "HtnSearch.tla decides whether a cheaper solution than the claimed optimum is reachable; PlanTrace.tla that the claimed cost is that of the plan", "instances sampled; exhaustive within the network bound"),
"P04": (T + "HtnSearch.tla with the count of decompositions and actions (or mixed cost) as the measure; PlanTrace.tla for the plan", "instances sampled; exhaustive within the network bound"),
"P05": (T + "PlanTrace.tla accumulates length and cost while replaying the printed plan and compares them with the reported ones", "instances sampled; every report decided exactly"),
"P06": (T + "DupTrace.tla: recorded histories of the real visited list against a map from (state, network up to isomorphism) to the least f-value", "search walks and list options sampled; each recorded answer decided exactly by an isomorphism search in TLC"),
"P07": (T + "NodeTrace.tla: every edge recorded from the real progression must be an action of HTN.tla, and every action of the specification be recorded", "walks of up to 60 nodes per instance; every edge decided exactly, up to renaming of steps"),
"P08": (T + "HtnSearch.tla started in the recorded search node: a completion found contradicts 'dead end' of any of the real heuristics", "nodes of sampled walks; exhaustive within the network bound"),
"P09": (T + "HtnSearch.tla started in the recorded search node with the estimate as bound: a cheaper completion contradicts it", "nodes of sampled walks; exhaustive within the network bound"),
"P10": (T + "NodeStats.tla: the recorded counters and reachability sets equal those of the recorded network", "walks of up to 60 nodes per instance; every node decided exactly"),
"P11": (T + "Hierarchy.tla defines reductions, classes, components and implied costs (fixpoints); the engine's tables are compared with it", "instances sampled; every table entry decided exactly"),
"P12": (T + "HddlTrace.tla compares the exported files, read back, with the input as networks", "instances sampled; equality decided exactly up to renaming"),
"P13": (T + "PlanTrace.tla replays the plans of the symbolic planner as behaviours of HTN.tla", "instances sampled from the supported fragment; every plan decided exactly"),
"P14": (T + "HtnSearch.tla decides the planner's verdict and the cost layer it announces", "instances sampled from the supported fragment; exhaustive within the network bound"),
"P15": (T + "PlanTrace.tla replays the plans of the SAT planner as behaviours of HTN.tla", "instances and encodings sampled; every plan decided exactly; a complete solver in IPASIR's place"),
"P16": (T + "HtnSearch.tla with the depth of decompositions as a bound decides the satisfiability the planner reports at each depth", "depths up to 5, instances and encodings sampled; exhaustive within them; the clause helpers themselves, with up to 725 variables, against ClauseTrace.tla"),
"P17": (T + "StateInv.tla explores all states reachable by executable actions and checks the engine's invariants and mutexes as state invariants", "instances sampled; each one explored exhaustively"),
"P18": (T + "HtnSearch.tla with the progression bound decides the verdict that an exhaustive classical planner gives on the generated problem", "bounds and instances small enough for the exhaustive planner in Fast Downward's place"),
"P19": (T + "PlanTrace.tla replays the decoded plans as behaviours of HTN.tla, with their costs", "instances and encodings sampled; every plan decided exactly"),
"P20": (T + "TrieModel.tla explored exhaustively for small keys and every behaviour replayed on the real tries; random long histories checked against the map of DsTrace.tla", "keys up to 4 bits exhaustive, longer ones (also across 64-bit words, and thousands of tries in one process) sampled"),
"P21": (T + "DsTrace.tla: recorded histories of each structure are behaviours of the abstract types of IntAdts.tla", "histories sampled; every return value and content decided exactly"),
"P22": (T + "HtnSearch.tla with the landmark forbidden: a solution found contradicts it", "instances sampled; exhaustive within the network bound"),
"P23": (T + "Determinism.tla: self-composition, several runs advance in lock step and must agree at every event", "instances and options sampled; all lines of output but times compared"),
"P24": (T + "HtnSearch.tla decides verdict and optimum with the special encodings, which must equal those without", "instances sampled; exhaustive within the network bound"),
}
bdd = "histories sampled; at most six variables (eight in places), so every function is compared on all its assignments"
for p, m, w in (("C01", "BddTrace", "Boolean operations"), ("C02", "BddTrace", "quantification, cofactor and substitution operations"), ("C03", "BddTrace", "reordering, collection and new variables, which must leave all registers unchanged, interleaved with all other operations"),
                ("C04", "BddTrace", "minimisation and approximation, decided by their relation to operands (agreement on the care set, containment)"), ("C05", "BddTrace", "counting, support, path, cube and prime queries"),
                ("C06", "AddTrace", "arithmetic operations"), ("C07", "ZddTrace", "operations on families of sets")):
    t[p] = (T + "%s.tla: a register machine of exact functions; every recorded history of the real manager with %s must be a behaviour of it, canonicity and manager consistency included" % (m, w), bdd)
for p in ("C01", "C02", "C03", "C04", "C05"):
    t[p] = (t[p][0] + "; WideTrace.tla: the same over 16-130 variables for chains of operators, read at sampled points, with exact big-number counts", bdd + "; wide functions compared at 24 points")
t["C08"] = (T + "DddmpTrace.tla: what a file means after matching variables; recorded store/load histories in all modes must agree, CNF read as its set of models; WideTrace.tla for functions of up to 1100 variables", bdd)
json.dump({p: dict(technique=a, note=b) for p, (a, b) in t.items()}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "techniques.json"), "w"), indent=1)
