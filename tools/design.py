"""Refreshes the generated tables of DESIGN.md: harnesses and bounds (from the
directives and the last evidence) and planted bugs (from seeded/ and
tools/plant/results.json)."""
import json, re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
titles = {}
for l in open('properties.jsonl'):
    d = json.loads(l); titles[d['id']] = d['title']
hs = {}
for f in sorted(glob.glob('harness/zz*/*.go')):
    s = open(f).read()
    for m in re.finditer(r'// h: property=(\w+) quick=(\d+) thorough=(\d+) reach=(\S*) bound="([^\n]*)"\nfunc (H_\w+)', s):
        hs.setdefault(m[1], []).append((m[6], m[5], os.path.basename(f)))
ev = {}
for p in titles:
    try:
        e = json.load(open(f'evidence/{p}.json'))
    except Exception:
        continue
    for h in e['coverage'].get('harnesses') or []:
        ev[h['harness']] = h
out = []
for p in sorted(hs):
    out.append(f'**{p} {titles[p]}**\n')
    for name, b, f in sorted(hs[p]):
        h = ev.get(name)
        cost = ''
        if h:
            cost = f" Last quick run: {h['paths']} paths, {h['solver_queries']} queries, {h['wall_s']:.0f} s" + (', exhausted.' if h['exhausted_within_bounds'] else '.')
        out.append(f'- `{name}` ({f}): {b}.{cost}')
    out.append('')
bounds = '\n'.join(out)
res = {}
if os.path.exists('tools/plant/results.json'):
    res = json.load(open('tools/plant/results.json'))
rows = ['| bug | property | needs | result |', '|---|---|---|---|']
n = c = 0
for d in sorted(glob.glob('seeded/*')):
    i = os.path.basename(d)
    m = json.load(open(d + '/meta.json'))
    r = res.get(i, {})
    n += 1
    c += r.get('result') == 'CAUGHT'
    txt = r.get('result', 'not run').lower()
    if r.get('harness'):
        txt += ' by ' + r['harness']
    rows.append(f"| {i} | {m['property']} | {m['needs'].replace('|', '/')} | {txt} |")
rows.append('')
rows.append(f'{c} of {n} caught.')
s = open('DESIGN.md').read()
def put(s, tag, body):
    a, b = f'<!-- {tag} -->\n', f'<!-- /{tag} -->'
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + body + '\n' + s[j:]
s = put(s, 'bounds', bounds)
s = put(s, 'seeded', '\n'.join(rows))
open('DESIGN.md', 'w').write(s)
print(n, 'bugs', c, 'caught')
