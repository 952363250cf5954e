"""Writes /verif/DESIGN.md from design_head.md, the property list, the check modules, the findings and the planted bugs."""
import json, os, ast, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(H, f)).read()
props = [json.loads(l) for l in rd('properties.jsonl').splitlines()]
find = [json.loads(l) for l in rd('known_findings.jsonl').splitlines()]
exec(rd('tools/design_text.py'))
seeds = {}
for d in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d)); seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
out = [rd('tools/design_head.md'), '## The properties\n',
  'Every property is claimed, and decided by exploration; nothing is not applicable.  Costs are wall-clock times of the quick and thorough tier on 8 cores.\n']
for p in props:
    i = p['id']; env = {}
    for node in ast.parse(rd('mc/%s.py' % i.lower())).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', None) == 'BOUND': env = ast.literal_eval(node.value)
    oracle, reach, cost = TEXT[i]
    out.append('### %s %s\n' % (i, p['title']))
    out.append('*Oracle.* %s\n' % oracle)
    out.append('*Enumerated (quick).* %s.\n' % env['quick'].rstrip('.'))
    out.append('*Thorough.* %s.\n' % env['thorough'].rstrip('.'))
    out.append('*Beyond the tests.* %s  *Cost.* %s.\n' % (reach, cost))
    if i in LIMITS: out.append('*Left open.* %s\n' % LIMITS[i])
out.append('## Planted bugs\n\nEach lies in seeded/<id> with its patch and demonstration, passes the existing suite, and is caught by the check of its property '
           '(exit 1 and a VIOLATION line; the last column names other checks known to see it as well).\n')
out.append('| id | manifests with | effect | caught by |\n|---|---|---|---|')
for i in sorted(seeds):
    for n, m in seeds[i]:
        out.append('| %s | %s | %s | %s |' % (n, m['needs'], m['what_it_breaks'], ', '.join([i] + ALSO.get(n, []))))
out.append('\n' + MISSED)
out.append('\n## Defects found in pygeode\n\n%d genuine defects were repaired by a "fix:" commit each (recorded in known_findings.jsonl):\n' % sum(f['status'] == 'fixed' for f in find))
for p in props:
    fs = [f for f in find if f['property'] == p['id'] and f['status'] == 'fixed']
    if fs: out.append('* **%s** ' % p['id'] + '; '.join('%s (%s)' % (f['what'].split(' ', 3)[3], f['commit']) for f in fs) + '.')
out.append('\nRecorded and not repaired (KNOWN-FINDING lines):\n')
for f in find:
    if f['status'] == 'known': out.append('* **%s** [%s] %s.' % (f['property'], ', '.join(f['keys']), f['what'].rstrip('.')))
out.append('\n' + ALARMS)
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out).rstrip() + '\n')
