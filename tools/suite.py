"""compare a test result file with the baseline (development aid)"""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(sys.argv[1]))
miss = sorted(set(b['stable']) - set(o['passed']))
print(len(o['passed']), 'passed', len(o['failed']), 'failed;', len(miss), 'stable tests not passing', miss[:10])
