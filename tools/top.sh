#!/bin/bash
# run a check with all disagreements and summarise them per key (development aid)
cd "$(dirname "$0")/.."
VERIF_ALL=1 ./check.sh "$@" > /tmp/top.$1 2>&1
python3 - /tmp/top.$1 <<'P'
import sys,re,collections
d=collections.OrderedDict(); other=[]
for l in open(sys.argv[1]):
    m=re.match(r'also: case (.*?) key=(\S+): (.*)',l)
    if m: d.setdefault(m.group(2),[]).append((m.group(1),m.group(3)))
    else: other.append(l.rstrip()[:600])
for o in other[:1]+other[1:20]: print(o)
for k,v in d.items():
    print('##',k,len(v)); 
    for c,x in v[:: max(1,len(v)//3)][:4]: print('   ',c[:120],'|',x[:380])
P
