#!/bin/bash
# counts of tool runs in the traces of a check: toolstat.sh P24
cd /verif; VERIF_KEEP=1 python3 check.py $1 > /tmp/o.txt; W=$(grep kept /tmp/o.txt | cut -d' ' -f2); python3 - $W <<'E'
import sys,glob,json,collections
c=collections.Counter()
for f in glob.glob(sys.argv[1]+'/*.ndjson'):
    for l in open(f):
        e=json.loads(l)
        if e['op']=='reset': c['user',e['user']]+=1
        if e['op']=='put': c[e['kind'],e['r']['ok']]+=1
        if e['op']=='pack': c[e['op'],e['how'],e['hinder'],e['r']['done']]+=1
        if e['op'] in('inside','extract'): c[e['op'],e['hinder'],e['r']['done']]+=1
print(c)
E
grep -v "^\[" /tmp/o.txt | cut -c1-3000; tail -3 /tmp/o.txt| cut -c1-3000; rm -rf "$W"
