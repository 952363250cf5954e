"""tools/fixed.py PROPERTY 'what failed' : record the last /repo commit as the repair of a defect"""
import json, subprocess, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
h = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h']).decode().strip()
with open(os.path.join(H, 'known_findings.jsonl'), 'a') as f:
    f.write(json.dumps(dict(property=sys.argv[1], status='fixed', commit=h, what='fixed: property=%s %s %s' % (sys.argv[1], h, sys.argv[2]))) + '\n')
