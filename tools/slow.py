#!/usr/bin/env python3
"""slow.py FILE...: the slowest entries of an executor output (build/out-*.json)."""
import json, sys
for f in sys.argv[1:]:
    for r in sorted(json.load(open(f)), key=lambda r: -r['wall_s'])[:12]:
        s = r['stats']
        print('%-55s %6.1f s, %7d paths, %6d queries, solver %6.1f s, %s' % (r['entry'], r['wall_s'], s['paths'], s['queries'], s['solver_us'] / 1e6, r.get('missing_covers') or ''))
