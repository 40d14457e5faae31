#!/usr/bin/env python3
"""Editing aid: add `fixed:` lines to known_findings.txt (arguments come from the table below)."""
import subprocess
log=subprocess.run("git -C /repo log --format='%h|%s'",shell=True,capture_output=True,text=True).stdout.splitlines()
h={l.split('|')[1]:l.split('|')[0] for l in log}
m=eval(open('/verif/tools/fixed.list').read())
p='/verif/known_findings.txt'
cur=open(p).read()
for t,pr,w in m:
    c=[v for k,v in h.items() if k[5:].startswith(t)]
    assert len(c)==1,(t,c)
    line=f"fixed: property={pr} {c[0]} {w}\n"
    if line not in cur: cur+=line
open(p,'w').write(cur)
