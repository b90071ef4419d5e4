#!/usr/bin/env python3
"""mkdesign.py: writes DESIGN.md from tools/design_*.md, the contract directives and the planted bugs."""
import glob, json, os, re
V = '/verif'
cons = {}
for f in sorted(glob.glob(V + '/contracts/**/*.go', recursive=True)):
    for m in re.finditer(r'^//vc:(contract|lemma) ?(.*)\n(?://.*\n)*func (\w+)', open(f).read(), re.M):
        k, a, fn = m.groups()
        pr = re.search(r'prop=(\S+)', a)
        t = a.split(' prop=')[0].strip() if k == 'contract' else ''
        for p in (pr.group(1).split(',') if pr else []):
            cons.setdefault(p, []).append((fn, t))
times = json.load(open(V + '/tools/times.json'))
out = open(V + '/tools/design_head.md').read()
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    obs, s = times.get(i, ('?', '?'))
    out += '**%s %s** — %s obligations, %s s. ' % (i, p['title'], obs, s)
    out += ', '.join(a + (' → `%s`' % b if b else '') for a, b in cons.get(i, [])) + '\n\n'
out += open(V + '/tools/design_tail.md').read()
out += '| planted bug | property | what it breaks |\n|---|---|---|\n'
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    out += '| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'])
out += open(V + '/tools/design_end.md').read()
open(V + '/DESIGN.md', 'w').write(out)
