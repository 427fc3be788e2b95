"""Rewrite section 5 of DESIGN.md from seeded/*/meta.json (run by hand after planting)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(here, 'DESIGN.md')).read()
head = s[:s.index('## 5. Planted bugs')]
out = [head + '## 5. Planted bugs', '',
       'Every bug is caught by the quick check of its own property (validated with `tools/plant.sh ID`: demo clean and patched,',
       'stable tests, check). Patches which stopped applying after a `fix:` commit were dropped. Misses on the way led to',
       'stronger checks: SRationalFilter in signal graphs (S02), element-wise convergence (S03), sign and phase of harmonic',
       'keys (K keys of O05), undriven AOM (O05), quadrature readouts and two-sided noise (O06, E02, K01, O03), nullable and',
       'reference units of parameters (B02), Gouy phase (A02), reading between multiplications (U03).', '',
       '| bug | caught by | what it breaks | needs |', '|---|---|---|---|']
d = os.path.join(here, 'seeded')
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, 'meta.json')))
    c = m.get('caught', m['property'])
    out.append('| %s | %s | %s | %s |' % (i, c, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
open(os.path.join(here, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
