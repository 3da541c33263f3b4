"""Puts the table of planted bugs into DESIGN.md."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"C06-defaults-after-functions": "records with several unmatched defaults", "C06-sformat-variable-first": "variables named like fields of the record",
          "C13-added-functions-macro": "macros named like added functions", "C17-filename-text-memo": "", "C17-variable-before-recorded": "names both set and recorded",
          "C18-name-in-name": "names within names", "C19-missing-false": "zero and empty cells", "C25-extension-end": "extensions that end in others",
          "C25-directory-read-sorted": "same names in the working and templates directories", "C29-python-lists": "parameters with urls and base path",
          "C30-indented-comment": "data that looks like the comment", "C31-first-argument-only": "several arguments by variables", "C32-csv-spaces": "spaces around CSV fields",
          "C32-ini-include-last": "the same option in tag and file"}
try:
    MISSED.update(json.load(open(os.path.join(V, "tools", "missed.json"))))
except OSError:
    pass
rows = ["| bug | breaks | needs | first missed |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["what_it_breaks"], m["needs"], MISSED.get(d, "")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
t = "<!-- table -->\n%s\n<!-- end of table -->" % "\n".join(rows)
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- table -->.*<!-- end of table -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
