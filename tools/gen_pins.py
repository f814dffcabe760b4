#!/usr/bin/env python3
"""Writes contracts/pins.json from the current /repo: the text of the trusted functions (hashed), the
headers of the annotated loops and the string literals.  Run by hand when an annotation is written; no check runs it."""
import json, os, weave
_, rep = weave.weave(None, None)
json.dump({"text": rep.pins, "loops": rep.loops, "strings": rep.strings, "closures": rep.closures}, open(os.path.join(weave.CONTRACTS, "pins.json"), "w"), indent=1, sort_keys=True)
print(len(rep.pins), "trusted,", len(rep.loops), "with loops")
