#!/usr/bin/env python3
"""Writes sa/layout.json: the types of the members of every catalogued set (run once, on the tree the checks were made for)."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
from reach import *


def run(cases, bad, arg):
    return {c.name: signature(c) for c in cases}


if __name__ == '__main__':
    sys.modules['mklayout'] = sys.modules['__main__']
    out = {}
    for r in pmap('mklayout', 'run', catalog.E + catalog.X, size=6):
        out.update(r)
    with open(LAYOUT, 'w') as f:
        f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(out[k])) for k in sorted(out)) + '\n}\n')
    print(len(out))
