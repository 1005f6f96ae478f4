"""Writes /verif/MANIFEST.json."""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
T = {
    "C01": "runtime monitor: reference-model oracle on generated channels and states",
    "C02": "runtime monitor: history-independence checker over random call histories",
    "C03": "runtime monitor: reference-model oracle for the complementary channel",
    "C04": "runtime monitor: differential dense/sparse execution along random histories",
    "C05": "runtime monitor: differential Choi/Kraus execution with a reference oracle",
    "C06": "runtime monitor: random composition expressions evaluated by a reference model",
    "C07": "runtime monitor: definition and metamorphic oracles on reported entropies",
    "C08": "runtime monitor: reference-model oracle for fidelities",
    "C09": "runtime monitor: reference-model oracle with mechanism-matched known findings",
    "C10": "runtime monitor: state-validity and round-trip oracles",
    "C11": "runtime monitor: recomputation of reported optima at the reported states",
    "C12": "runtime monitor: comparison of multi-start runs with each single start and closed forms",
    "C13": "runtime monitor: replay of the recorded draw/evaluation log against the acceptance rule",
    "C14": "runtime monitor: fault injection into descriptions, refusal observed",
    "C15": "runtime monitor: binary-field group comparison of derived normal forms",
    "C16": "runtime monitor: symplectic-algebra oracle and simulator state vectors",
    "C17": "runtime monitor: isometry and projector oracle",
    "C18": "runtime monitor: simulator state vectors against operator matrices",
    "C19": "runtime monitor: simulator state vectors of decoded superpositions",
    "C20": "runtime monitor: projective-measurement oracle over measurement sequences",
    "C21": "runtime monitor: simulator state vectors against operator matrices",
    "C22": "runtime monitor: matrix oracle for the Pauli encodings",
    "C23": "runtime monitor: binary-field group comparison with a reference construction",
    "C24": "runtime monitor: reference construction and recomputation of reported optima",
    "C25": "runtime monitor: observed trials (states, measured bits) against the reported estimate",
    "C26": "runtime monitor: comparison with full enumeration by a reference",
    "C27": "runtime monitor: replay of the recovery, dual certificate and exact Pauli optimum",
    "C28": "runtime monitor: callback log of the search against the reported result",
    "C29": "runtime monitor: bitwise input comparison, aliasing and repetition probes",
    "C30": "runtime monitor: reference-model oracle over storage types and layouts of the inputs",
}
ASSUME = {
    "C09": " The Kraus versions are listed as known findings: only the two listed wrong mechanisms are tolerated there.",
    "C15": " Up to n = 6 the relabelling is found by search, for n = 7 letter statistics are compared.",
    "C17": " Only generators with an even number of Y's.",
    "C18": " Only generators with an even number of Y's; trusts the ProjectQ simulator.",
    "C19": " Only generators with an even number of Y's; trusts the ProjectQ simulator; global phase ignored.",
    "C20": " Only elements with an even number of Y's; trusts the ProjectQ simulator.",
    "C24": " The objective \"fidelity\" is only checked for its refusals.",
    "C25": " Statistical oracles have thresholds beyond 6.5 standard deviations.",
    "C27": " Accuracy 8e-3, limited by the solver.",
}
m = {
    "version": 1,
    "setup_cmd": "bash harness/setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash harness/check.sh %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough bash harness/check.sh %s" % p["id"],
        "technique": T[p["id"]],
        "level": "exploration",
        "level_note": "No violation on the generated executions counted in the evidence; inputs outside the generators are not covered. "
                      "Trusts numpy/scipy and the independent reference in harness/ref.py." + ASSUME.get(p["id"], ""),
    } for p in props],
    "not_applicable": [],
    "notes": "The package is pure Python and single-threaded apart from optional process pools, so the monitors are oracles on real "
             "executions rather than compiler sanitizers; see DESIGN.md. /repo carries no hooks: everything is observed through public "
             "results, user callbacks, and the ProjectQ engine. Replay: bash harness/check.sh <id> --replay <file>.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
