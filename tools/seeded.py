"""Runs the check of each planted bug's property against it, and writes the table in DESIGN.md.

Not a check: run by hand, python3-vt tools/seeded.py [ids...].  Each bug is applied to a
scratch clone of /repo, which the check is pointed at with VERIF_REPO.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
RESULTS = os.path.join(VERIF, "tools", "seeded.json")
START, END = "<!-- planted -->\n", "<!-- /planted -->\n"


def run(name):
    with open(os.path.join(SEEDED, name, "meta.json")) as file:
        meta = json.load(file)
    root = tempfile.mkdtemp(prefix="seeded_")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", root + "/r"], check=True)
        subprocess.run(["git", "-C", root + "/r", "apply", os.path.join(SEEDED, name, "patch.diff")], check=True)
        env = dict(os.environ, VERIF_REPO=root + "/r", VERIF_WORKERS="4", VERIF_OUT=root)
        done = subprocess.run(["python3-vt", "pbt/run.py", meta["property"]], cwd=VERIF, env=env, capture_output=True, text=True)
        caught = done.returncode == 1 and "VIOLATION property=%s " % meta["property"] in done.stdout
        lines = done.stdout.strip().splitlines()
        how = lines[0].split(":")[0] if caught and lines else ""
        return name, {"caught": caught, "rc": done.returncode, "by": how}
    finally:
        shutil.rmtree(root)


def main():
    results = {}
    if os.path.exists(RESULTS):
        with open(RESULTS) as file:
            results = json.load(file)
    every = sorted(os.listdir(SEEDED))
    wanted = [n for n in every if not sys.argv[1:] or any(n.startswith(a) for a in sys.argv[1:])]
    with concurrent.futures.ThreadPoolExecutor(2) as pool:
        for name, result in pool.map(run, wanted):
            results[name] = result
            if not result["caught"]:
                print("%s: missed (rc %d)" % (name, result["rc"]), flush=True)
    results = {name: results[name] for name in every if name in results}
    with open(RESULTS, "w") as file:
        json.dump(results, file, indent=0, sort_keys=True)
        file.write("\n")
    rows = []
    for name in every:
        with open(os.path.join(SEEDED, name, "meta.json")) as file:
            meta = json.load(file)
        found = results.get(name, {"caught": None, "by": ""})
        rows.append("| %s | %s | %s | %s |\n" % (name, meta["property"], " ".join(meta["needs"].split()).replace("|", "/"),
                                               {True: "caught (%s)" % found["by"], False: "MISSED", None: "not run"}[found["caught"]]))
    path = os.path.join(VERIF, "DESIGN.md")
    with open(path) as file:
        text = file.read()
    before, rest = text.split(START)
    after = rest.split(END)[1]
    table = "| planted bug | property | needs | its check |\n|---|---|---|---|\n" + "".join(rows)
    with open(path, "w") as file:
        file.write(before + START + table + END + after)
    print("%d of %d caught" % (sum(r["caught"] for r in results.values()), len(results)))


main()
