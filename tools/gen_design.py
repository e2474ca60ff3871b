#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written parts below, and tables from checks.py, properties.jsonl, KNOWN_FINDINGS.jsonl and seeded/*/meta.json."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
HEAD = open(V + '/tools/design_head.md').read()
HOW = {}
for blk in open(V + '/tools/design_how.md').read().split('\n## ')[1:]: k, t = blk.split('\n', 1); HOW[k.strip()] = ' '.join(t.split())
out = [HEAD.rstrip(), '', '## The properties one by one', '', 'Bounds are those of the quick tier; "thorough" gives what the thorough tier adds. The units of a check are separate encodings, each with its own reachability labels.', '']
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); p = checks.PROPS.get(d['id'])
    out += ['### %s %s' % (d['id'], d['title']), '']
    if not p: out += ['Not applicable: ' + checks.NOT_APPLICABLE.get(d['id'], ''), '']; continue
    out += [HOW.get(d['id'], ''), '']
    out += ['*Bounds:* ' + p['bounds'] + '.']
    if p.get('assumptions'): out += ['*Assumed or outside:* ' + '; '.join(p['assumptions']) + '.']
    srcs = sorted(set([('py/units.py: %s_%s' % (d['id'], u['name'])) if p.get('python') else 'harness/' + u['src'] for u in p['units']]))
    out += ['*Harness:* ' + ', '.join(srcs) + '; units ' + ', '.join(u['name'] for u in p['units']) + '.', '']
out += ['## Defects found in ros_control', '', 'Every one was found by a check as a counterexample that the native replay (or the concrete Python run) confirmed.', '', '| property | outcome | what failed |', '|---|---|---|']
for l in open(V + '/KNOWN_FINDINGS.jsonl'):
    d = json.loads(l) if l.strip() else None
    if d: out.append('| %s | %s | %s |' % (d['property'], 'repaired in ' + d['commit'] if d['status'] == 'fixed' else 'recorded (%s)' % d['id'], (d.get('text', '').split(d.get('commit', '\0') + ' ', 1)[-1] if d['status'] == 'fixed' else d['what'])))
out += ['', '## Planted changes', '', 'Each is confirmed (builds, passes the 26 stable tests, its demonstration passes without it and fails with it) by `tools/plant.py` before it is kept, and run through its property\'s check. "Caught by" names that check; a change is written from the property text and the code, not from the check. Where a change was missed at first, what had to be strengthened is listed below the table.', '', '| change | what it breaks | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f)); n = os.path.basename(os.path.dirname(f)); c = caught.get(n)
    out.append('| %s | %s | %s | %s |' % (n, d['what_it_breaks'], d['needs'], '?' if c is None else d['property'] if c else 'not caught'))
out += ['', open(V + '/tools/design_tail.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out)); print(len(out), 'lines')
