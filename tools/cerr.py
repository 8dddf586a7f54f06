#!/usr/bin/env python3
"""tools/cerr.py REPLAY: prints the compiler messages of a `compile` replay."""
import json, sys
print(json.load(open(sys.argv[1]))["detail"]["log"])
