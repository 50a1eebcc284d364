"""Compose DESIGN.md: the written part (tools/design_head.md, tools/design_tail.md),
the rules as built (docstrings of sa/rules/cNN.py) and the seed matrix (tools/seed_matrix.json)."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for line in open(V + '/properties.jsonl'):
    if line.strip():
        p = json.loads(line); props[p['id']] = p
out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## Per property: the rule as built', '']
for f in sorted(glob.glob(V + '/sa/rules/c[0-9]*.py')):
    i = os.path.basename(f)[:-3].upper()
    doc = ast.get_docstring(ast.parse(open(f).read())) or ''
    out += ['### %s: %s' % (i, props.get(i, {}).get('title', '')), '', doc.strip(), '']
out += ['## Which checks catch which planted changes', '',
        'Every line: change in `seeded/`, property whose own check was run on it, exit code (1: reported).', '']
m = json.load(open(V + '/tools/seed_matrix.json'))
caught = sum(1 for r in m if r[2] == 1)
out += ['%d changes, %d reported by the check of the property they break.' % (len(m), caught), '',
        '| change | property | exit | first reported rule or construct |', '|---|---|---|---|']
for r in sorted(m):
    out.append('| %s | %s | %s | %s |' % (r[0], r[1], r[2], str(r[3] if len(r) > 3 else '').replace('|', '/').replace('\n', ' ')[:140]))
out += ['', open(V + '/tools/design_tail.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
