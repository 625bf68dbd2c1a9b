"""python3 tools/fixed.py C09 <commit subject fragment> <what failed>: adds a fixed entry to known_findings.json."""
import json, subprocess, sys
p = '/verif/known_findings.json'
prop, frag, what = sys.argv[1:4]
h = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h', '--fixed-strings', '--grep', frag], capture_output=True, text=True).stdout.split()
assert len(h) == 1, h
d = json.load(open(p))
d['fixed'].append(f'fixed: property={prop} {h[0]} {what}')
json.dump(d, open(p, 'w'), indent=1)
print(d['fixed'][-1])
