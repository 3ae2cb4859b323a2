#!/usr/bin/env python3
"""replay.py FILE: replays a recorded violation on /repo's current tree (exit 1 if it still shows)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import confirm
r = json.load(open(sys.argv[1]))
c = confirm.confirm(r["property"], r["job"], r["finding"])
print("reproduced" if c["confirmed"] else "not reproduced", "-", c["note"])
sys.exit(1 if c["confirmed"] else 0)
