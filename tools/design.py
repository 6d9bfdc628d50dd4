"""`python3 tools/design.py` rewrites the sections of DESIGN.md after the mark from the properties, the checks and the planted bugs."""
import glob
import json
import os
import re

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- generated -->\n'
B = json.load(open(R + '/tools/bounds.json'))
fix = {}
for l in open(R + '/KNOWN_FINDINGS.txt'):
    m = re.match(r'fixed: property=(C\d+) (\S+) (.*)', l)
    if m:
        fix.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
seeds = {}
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
man = {c['property']: c for c in json.load(open(R + '/MANIFEST.json'))['checks']}
out = []
for l in open(R + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    out.append('## %s %s\n' % (i, p['title']))
    src = open(R + '/vt/checks/%s.py' % i.lower()).read()
    out.append('*Oracle.* %s\n' % man[i]['level_note'])
    out.append('*Bounds.* %s\n' % B[i])
    out.append('*Why tests do not settle it.* %s\n' % p['why_tests_cant'])
    out.append('*Workloads* (units of the quick tier):\n')
    for m in re.finditer(r'@case\(([^)]*)\)\ndef (\w+)\(ctx\):\n\s+(?:"""(.*?)""")?', src, re.S):
        q = re.search(r'quick=(\d+)', m.group(1))
        out.append('- `%s` (%d): %s' % (m.group(2), int(q.group(1)) * 3, ' '.join((m.group(3) or '').split())))
    s = seeds.get(i, [])
    if s:
        out.append('\n*Planted bugs, all caught by this check:* ' + '; '.join('%s (%s)' % (k, m['needs']) for k, m in s) + '.')
    f = fix.get(i, [])
    if f:
        out.append('\n*Defects found and repaired (%d):* ' % len(f) + '; '.join('%s (%s)' % (b, a) for a, b in f) + '.')
    out.append('')
s = open(R + '/DESIGN.md').read().split(MARK)[0]
open(R + '/DESIGN.md', 'w').write(s + MARK + '\n' + '\n'.join(out))
