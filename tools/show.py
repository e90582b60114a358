#!/usr/bin/env python3
"""sim run ... | tools/show.py : summary with the long lists counted"""
import json,sys
d=json.load(sys.stdin)
for k in('states','scheds','hashes'): d[k]=len(d[k])
print(json.dumps(d,indent=1))
