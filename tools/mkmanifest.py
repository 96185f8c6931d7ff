"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
import kani
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
LEVEL = {}
exec(open(V + '/tools/levels.py').read())
checks = []
for i in ids:
    us = kani.contracts_for(i, 'thorough'); hs = [h for u in us for h in u.harnesses]
    level, note = LEVEL[i]
    nb = [h for h in hs if h.bound]
    note += ' Obligations: %d, of which %d hold without a bound on the data and %d state a bound.' % (len(hs), len(hs) - len(nb), len(nb)) if hs else ''
    note += ' Trusted: Kani/CBMC, rustc, the shims listed in DESIGN.md. The stand-in (runs of the real binary against an oracle) is bounded and not counted as proved.'
    checks.append(dict(property=i, quick_cmd='python3 tools/check.py ' + i, thorough_cmd='python3 tools/check.py %s thorough' % i,
        technique='contracts on the real functions discharged by Kani (CBMC), bounded stand-in on the real binary for the rest', level=level, level_note=note))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=[], notes='See DESIGN.md. No hooks: the contracts are compiled into a scratch extraction of /repo/src on every run.'), open(V + '/MANIFEST.json', 'w'), indent=1)
