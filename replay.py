#!/usr/bin/env python3
"""replay.py FILE: runs the input of a reported violation against the real code."""
import json, sys

import build, check

d = json.load(open(sys.argv[1]))
_, nat, _, _ = build.build()
outcome, text, _ = check.replay(nat, d["entry"], d["input"])
print(outcome)
print(text)
sys.exit(0 if outcome in ("done", "expected panic") else 1)
