#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, jobs.PROPS and the notes below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import jobs  # noqa: E402
import notes  # noqa: E402


def main():
    props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in jobs.PROPS and i in notes.NOTES:
            technique, level, note = notes.NOTES[i]
            checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i,
                               thorough_cmd="python3 run.py %s --tier thorough" % i,
                               evidence_file="evidence/%s.json" % i, technique=technique, level=level, level_note=note))
        else:
            na.append(dict(property=i, reason=notes.NA.get(i, "not claimed yet: its monitor has not been built")))
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na, notes=notes.GENERAL)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()
