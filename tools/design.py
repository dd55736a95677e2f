#!/usr/bin/env python3
# Refreshes the generated tables of DESIGN.md from properties, contracts, KNOWN_FINDINGS and seeded/.
import re, json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl') if l.strip()]
man = json.load(open(root + '/MANIFEST.json'))
claimed = {c['property']: c for c in man['checks']}
na = {c['property']: c['reason'] for c in man['not_applicable']}
con = {}
for f in sorted(glob.glob(root + '/contracts/c_*.cpp')):
    for m in re.finditer(r'^VK_CONTRACT\((\w+), "([^"]+)", "([^"]+)", "([^"]*)", "([^"]*)"\)', open(f).read(), re.M):
        con.setdefault(m[2].split(',')[0].strip(), []).append((os.path.basename(f), m[1], m[3], m[4], m[5]))
out = []
for p in props:
    i = p['id']
    out.append('\n### %s %s\n' % (i, p['title']))
    if i in na: out.append('Not applicable: ' + na[i] + '\n'); continue
    c = claimed[i]; cs = con.get(i, [])
    out.append('Level %s. %s\n' % (c['level'], c['level_note']))
    out.append('\n'.join('* `%s` (%s; %s) on %s: %s' % (n, f, k, t, x) for f, n, k, t, x in cs) + '\n')
seeds = []
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    seeds.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'], m['needs'], m.get('caught', 'caught by check ' + m['property'])))
gen = {'TABLE': '\n'.join(out),
 'FIXES': '\n'.join('* ' + l.strip() for l in open(root + '/KNOWN_FINDINGS') if l.startswith(('fixed:', 'known:'))),
 'SEEDS': '| id | property | breaks | needs | result |\n|---|---|---|---|---|\n' + '\n'.join(seeds)}
p = root + '/DESIGN.md'; s = open(p).read()
for k, v in gen.items():
    s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (k, k), lambda _: '<!-- %s -->\n%s\n<!-- /%s -->' % (k, v, k), s, flags=re.S)
open(p, 'w').write(s)
