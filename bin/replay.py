#!/usr/bin/env python3
"""replay.py <replay.json> [runs]: runs the scenario of a reported violation again and shows the judged trace."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import traces
from build import build
from runner import Runner, show
d = json.load(open(sys.argv[1])); s = d['scenario']
print(s['script'])
with Runner(build(s['variant'])) as r:
    for k in range(int(sys.argv[2]) if len(sys.argv) > 2 else 1):
        t = r.run(s)
        v, _ = traces.validate([t], s['trace'])
        show(t)
        for x in v[0]: print('broken:', x)
