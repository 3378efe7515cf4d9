"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present in pbt/checks."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

NOTE = ("Searches generated inputs and histories against an explicit oracle; it shows the absence of "
        "violations only for the explored cases, and trusts the oracle in pbt/, Hypothesis and CPython.")
TECHNIQUE = "property-based testing (Hypothesis): %s"
METHODS = {
    "C01": "round trip over generated logs, compared with the generated model",
    "C02": "differential test against an independent XES reader written for the check",
    "C03": "generated XES documents with an expected model built alongside",
    "C04": "fault injection of unreadable dates, metamorphic comparison with the document without them",
    "C05": "reference arithmetic for xs:dateTime in both directions, local time zones varied",
    "C06": "generated file names against a reference rule; write and read back through every format",
    "C07": "round trip over generated logs, independent MXML reader",
    "C08": "generated MXML documents with an expected model built alongside",
    "C09": "model-based mutation histories on clone and original",
    "C10": "algebraic laws over generated pairs and triples, reference order",
    "C11": "insertion histories against a reference list",
    "C12": "reference identity over generated events and classifiers",
    "C13": "registration histories against a reference counter",
    "C14": "naive recount of generated logs",
    "C15": "registration histories against minimum and maximum",
    "C16": "registration histories against a reference counter",
    "C17": "accessor histories against a model of each element's attributes",
    "C18": "assignment histories against a model of key paths",
    "C19": "registration histories against a model of the manager",
    "C20": "generated extension definitions with an expected model built alongside",
    "C21": "registration histories against dictionaries",
    "C22": "registry histories against a model; recording factories on generated documents",
    "C23": "interleaved histories compared with isolated executions",
    "C24": "operation histories under a generated clock; reference decomposition",
    "C25": "generated attributes against a reference table",
    "C26": "caching histories with injected damage in scratch homes, several sessions",
    "C27": "generated identifiers and creation histories against uuid arithmetic",
    "C28": "addition histories against a list; reference token grammar",
    "C29": "histories of changes against lists and dictionaries",
    "C30": "histories of listeners and messages against a model",
    "C31": "generated platforms and homes in forked processes, model of the file tree",
    "C32": "fault injection into files and streams; metamorphic comparison with the undamaged ones",
    "C33": "random import and first-use orders in fresh processes; differential comparison between orders",
    "C34": "random logs and random chains of formats; model of each step",
    "C35": "random documents with references, audit of effects; invariants over files and process state",
    "C37": "random logs in growing sizes; metamorphic relation between counted steps",
    "C38": "random work repeated with other contents; invariant over the objects in memory",
    "C39": "random work in processes with random surroundings, compared with the same work here",
    "C36": "random schedules of threads and re-entrant calls; differential comparison with each task alone",
}


def main():
    with open(os.path.join(VERIF, "properties.jsonl")) as file:
        ids = [json.loads(line)["id"] for line in file]
    checks, missing = [], []
    for name in ids:
        if os.path.exists(os.path.join(HERE, "checks", name.lower() + ".py")):
            checks.append({
                "property": name,
                "quick_cmd": "python3-vt pbt/run.py %s" % name,
                "thorough_cmd": "python3-vt pbt/run.py %s --tier thorough" % name,
                "evidence_file": "evidence/%s.json" % name,
                "technique": TECHNIQUE % METHODS[name],
                "level": "exploration",
                "level_note": NOTE,
            })
        else:
            missing.append({"property": name, "reason": "no check has been built for it yet"})
    manifest = {"version": 1, "setup_cmd": "python3-vt -c 'import hypothesis'", "checks": checks,
                "not_applicable": missing,
                "notes": "Checks import /repo/src directly and never use compiled files; see DESIGN.md."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as file:
        json.dump(manifest, file, indent=1)
        file.write("\n")


main()
