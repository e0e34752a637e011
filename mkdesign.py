#!/usr/bin/env python3
"""composes DESIGN.md from doc/head.md, the rule of every check, the planted bugs and doc/tail.md"""
import importlib, json, os, re, sys
HERE = os.path.dirname(os.path.realpath(__file__))
sys.path.insert(0, HERE)
import mkmanifest
P = lambda *a: os.path.join(HERE, *a)
out = [open(P('doc', 'head.md')).read().rstrip(), '', '## Properties and how each is decided', '',
       'All are decided for all inputs of the stated region, without bounds on runs or paths (loops that remain are unrolled until no path reaches the gap).', '']
for l in open(P('properties.jsonl')):
    p = json.loads(l)
    out.append('**%s – %s.**' % (p['id'], p['title']))
    f = P('checks', p['id'].lower() + '.py')
    if os.path.exists(f):
        m = importlib.import_module('checks.' + p['id'].lower())
        r = re.sub(r'\s+', ' ', m.RULE).strip()
        out += ['*Rule:* ' + r[0].upper() + r[1:] + ('' if r.endswith('.') else '.') + ' *' + mkmanifest.T[p['id']][0][0].upper() + mkmanifest.T[p['id']][0][1:] + '.* ' + mkmanifest.T[p['id']][1], '']
    else:
        out += ['*Not applicable:* ' + mkmanifest.NA[p['id']], '']
out += [open(P('doc', 'tail.md')).read().rstrip(), '', '## Planted bugs and the checks that catch them', '', '| bug | property | needs | caught by | no answer |', '|---|---|---|---|---|']
c = {}
for l in open(P('doc', 'catches.txt')):
    m = re.match(r"(\S+) \[(.*?)\] noanswer \[(.*?)\]", l)
    if m: c[m.group(1)] = [x.replace("'", '') for x in m.groups()[1:]]
for s in sorted(os.listdir(P('seeded'))):
    m = json.load(open(P('seeded', s, 'meta.json')))
    k = c.get(s, ['(not run)', ''])
    out.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '\\|').replace('\n', ' '), k[0], k[1]))
open(P('DESIGN.md'), 'w').write('\n'.join(out) + '\n')
