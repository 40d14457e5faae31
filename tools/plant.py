#!/usr/bin/env python3
"""Editing aid (no check runs it).  plant.py FILE.spec...: for each spec, plants
the change in a scratch copy of /repo with seed.sh and writes seeded/ID.
A spec: lines 'id:', 'property:', 'needs:', 'breaks:', then one or more
'file: PATH' each followed by <<<< old ==== new >>>> blocks, then '--- demo'
and the body of main()."""
import json, os, re, subprocess, sys

for spec in sys.argv[1:]:
    t = open(spec).read()
    head, demo = t.split('--- demo\n', 1)
    g = lambda k: re.search(r'^%s: (.*)$' % k, head, re.M)[1]
    i = g('id')
    r = subprocess.run(['bash', '/verif/tools/seed.sh', 'new', i], capture_output=True, text=True).stdout.strip()
    s = '/verif/seeded/' + i
    json.dump({"property": g('property'), "needs": g('needs'), "what_it_breaks": g('breaks')}, open(s + '/meta.json', 'w'))
    open(s + '/demo.rs', 'w').write('extern crate amxml;\nuse amxml::dom::*;\nfn main() {\n' + demo + '}\n')
    for part in re.split(r'^file: ', head, flags=re.M)[1:]:
        f, b = part.split('\n', 1)
        p = subprocess.run(['python3', '/verif/ed.py', r + '/' + f.strip()], input=b, text=True, capture_output=True)
        if 'ok' not in p.stdout:
            print(i, p.stdout, p.stderr)
    print('==', i, g('property'))
    print(subprocess.run(['bash', '/verif/tools/seed.sh', 'fin', i], capture_output=True, text=True).stdout)
