#!/usr/bin/env python3
"""Developer tool: prints the table of planted bugs for DESIGN.md."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| bug | breaks and is caught by | needs |\n|---|---|---|")
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    print("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/")))
