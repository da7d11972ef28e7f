"""Write /verif/MANIFEST.json from the table below."""
import json
from pathlib import Path

TECH = {
    "C01": ("model_checking", "TLA+ spec SkopsLoad: TLC-enumerated archives loaded by the real code under several trusted lists; every observed use validated by the trace spec",
            "Uses are observed through canary modules, interpreter audit events, calls made by skops.io and the returned object graph; random/mutated/crafted archives beyond the bounded instance are samples."),
    "C02": ("model_checking", "TLA+ spec SkopsLoad: TLC-enumerated archives inspected by the real code; every observed effect validated by the trace spec",
            "Name resolution is observed on harness-owned modules and as imports; file and process operations through interpreter audit events."),
    "C03": ("model_checking", "TLA+ spec SkopsLoad (audit verdict): enumerated archives x trusted lists on the real load; trace validation",
            "Trusted lists are sampled from the reported names; result equality is equality of projections."),
    "C04": ("model_checking", "TLA+ spec SkopsValue (values, Enc/Dec, Supported): TLC-enumerated values made concrete and dumped/loaded by the real code; every round trip validated by the trace spec",
            "Equality is equality of projections; values beyond the bounded instance are a fixed pool of ~340 kinds, alone and nested at random."),
    "C05": ("model_checking", "TLA+ spec SkopsValue (Supported, Faithful, Stable): enumerated values, every dtype x shape x layout, ufuncs and keys round-tripped twice; trace validation",
            "Numeric contents are sampled (with the edge values of each dtype); nesting of random values bounded at depth 4."),
    "C06": ("model_checking", "TLA+ spec SkopsDump (dumping with identifiers, temporaries and an allocator, all graphs of the bounded instance); TLC-enumerated graphs built of real objects, identities before/after judged by the trace spec",
            "References are followed along paths through containers, attributes and cells; reuse of addresses is provoked with many temporaries, not controlled. Four listed findings."),
    "C12": ("model_checking", "TLA+ spec SkopsDumpTrace (WellFormed, canonical forms): archives of TLC-enumerated graphs and of values of every kind, read with zipfile/json, for every sink and compression",
            "Which dicts of a schema are nodes is decided by the documented layout of each kind of node; compression methods and levels are sampled per value."),
    "C08": ("model_checking", "TLA+ spec SkopsProtocol (format evolution, dispatch): TLC + probes of the real dispatch; archives of older protocols and a corpus of the pinned version validated by the trace spec",
            "Older archives are downgraded current ones (documented layouts) and a corpus written by the pinned version; protocols below the current one exist only as loaders."),
    "C11": ("model_checking", "TLA+ spec SkopsLoad (families): header of every kind x every protocol x ~49 000 names, every slot; trace validation of what is reported and refused",
            "Names are the members of the installed standard library, numpy, scipy, scikit-learn, joblib and skops; families decided by the resolved objects."),
    "C13": ("model_checking", "TLA+ spec SkopsRender: TLC-enumerated trees replayed as archives through the real visualize (sink and printed); trace validation on dumps, random and mutated archives",
            "Trees of the bounded instance (6 rows, 8 thorough); printed output parsed from a wide console; archives with more than 400 rows only checked for completion."),
    "C09": ("model_checking", "TLA+ spec SkopsCard: TLC-exhaustive histories replayed on Card + trace validation",
            "All histories of the bounded instance (TLC), replayed on real Card objects, and seeded random histories checked event by event by TLC. Trusts the projection of Card._data."),
    "C10": ("model_checking", "TLA+ spec SkopsCard (render/TOC operators): exhaustive replay + trace validation",
            "Rendered text, TOC and saved bytes compared with the specification's own rendering of the observed tree; blank-line counts between blocks are not judged."),
    "C14": ("model_checking", "TLA+ spec SkopsCard (builders): trace validation of real builder calls",
            "Random builder histories (tables, plots, metrics, hyper-parameters, diagrams) checked event by event by TLC; the model diagram's HTML is opaque."),
    "C15": ("model_checking", "TLA+ spec SkopsParser: TLC-enumerated documents replayed through PandocParser + trace validation",
            "Documents enumerated by TLC (bounded outline shapes) and seeded random block trees; block text compared through content markers, pandoc JSON built directly."),
    "C16": ("model_checking", "TLA+ spec SkopsFiles: TLC-checked update protocol with crash/IO-error actions; every configuration and crash point run on the real CLI, outcomes judged by the spec",
            "Process death before every file operation and mid-write (file-size limit); power loss of the machine is not simulated."),
    "C17": ("model_checking", "TLA+ spec SkopsFiles (convert): configurations run on the real CLI, outcomes judged by the spec",
            "Finite set of pickles, names and destinations; equality of objects is equality of projections."),
    "C18": ("model_checking", "TLA+ spec SkopsFiles (dump): exhaustive context paths x unsupported leaves x sinks on real dump, judged by the spec",
            "Context paths complete to length 2, sampled to 8; finite sets of unsupported leaves and sinks."),
    "C07": ("model_checking", "TLA+ spec SkopsEstimator (compositions of estimators and their lives: fit, set parameters, clone, dump, load, use): TLC-enumerated compositions and lives run on real scikit-learn estimators, every step validated by the trace spec",
            "All estimator classes with curated and drawn hyper-parameters; data sets are a fixed list of kinds; outputs compared bitwise on held-out inputs; fits after a reload are compared only when copies of the original repeat theirs."),
    "C19": ("model_checking", "TLA+ spec SkopsCorrupt (build/audit/construct/show machines over schemas with arbitrary ids; termination by liveness): every enumerated schema and seeded damage at byte, member, schema, text and native-state level run on the real code in child processes; outcomes judged by the trace spec",
            "Damage beyond the bounded schemas is sampled; promptness means within 20 s; names in damaged archives come from a harmless list because the trusted list is what was reported."),
    "C20": ("model_checking", "TLA+ spec SkopsCalls (calls over shared and per-call state, several threads, what a caller does to a result; independence invariants, with leaking variants refuted): TLC-enumerated histories and schedules replayed on real dumps/loads/get_untrusted_types/visualize/Card calls over clash groups of arguments, each result compared by the trace spec with the call in a process of its own; threads switched at chosen lines",
            "Histories complete to length 3 over the abstract calls, sampled on about 2600 real ones and to length 60; schedules complete for two calls of three parts, bound to real lines by one or two switches per call; the same kind of card operation is stopped at (a sample of) every line."),
}  # fmt: skip

root = Path(__file__).resolve().parent.parent
checks = [
    {
        "property": p,
        "quick_cmd": f"bash check.sh {p} quick",
        "thorough_cmd": f"bash check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": t,
        "level": lv,
        "level_note": note,
    }
    for p, (lv, t, note) in sorted(TECH.items())
]
allp = [f"C{i:02d}" for i in range(1, 21)]
na = [
    {"property": p, "reason": "check not built yet (work in progress)"}
    for p in allp
    if p not in TECH
]
(root / "MANIFEST.json").write_text(
    json.dumps(
        {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na},
        indent=1,
    )
    + "\n"
)
