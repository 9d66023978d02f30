#!/usr/bin/env python3
# Regenerates DESIGN.md: design_head.md, then per property what its check does, findings, planted bugs.
import json, os, sys, collections
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H); sys.dont_write_bytecode = True
import specs
NA = {}; exec(open(os.path.join(H, 'tools', 'na.py')).read())
o = [open(os.path.join(H, 'tools', 'design_head.md')).read(), '## Properties\n']
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l); i = p['id']; o.append(f'### {i} {p["title"]}\n')
    if i not in specs.PROPS: o.append(f'Not claimed: {NA.get(i, "no check built yet")}.\n'); continue
    s = specs.PROPS[i]; o.append(s['how'] + '\n')
    b = collections.OrderedDict()
    for r in s['runs']: b.setdefault((r['bound'], r['tiers'] == specs.T), []).append(r['entry'])
    for (t, th), es in b.items(): o.append(f'* {"(thorough only) " if th else ""}{t}: ' + ', '.join(dict.fromkeys(es)))
    if s['outside']: o.append('\nOutside: ' + s['outside'] + '.')
    if s['note']: o.append('\n' + s['note'])
    o.append('')
k = json.load(open(os.path.join(H, 'known_findings.json')))
o.append('## Findings\n\nRepaired in /repo ("fix:" commits):\n'); o += ['* ' + x[7:] for x in k['fixed']]
o.append('\nKnown (not repaired; the check prints KNOWN-FINDING):\n'); o += [f'* {x["id"]}: {x["text"]}' for x in k['known']]
o.append('\n## Planted bugs\n\n' + open(os.path.join(H, 'tools', 'seeds_note.md')).read() + '\n| id | property | caught by | needs |\n|---|---|---|---|')
cb = json.load(open(os.path.join(H, 'tools', 'caught.json'))) if os.path.exists(os.path.join(H, 'tools', 'caught.json')) else {}
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', d, 'meta.json'))); o.append(f'| {d} | {m["property"]} | {cb.get(d, "?")} | {m["needs"]} |')
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(o) + '\n')
