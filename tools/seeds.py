#!/usr/bin/env python3
"""writes seeded/<id>/ from the table below (run by hand): patch.diff against /repo's HEAD, demo.sh + demo.c, meta.json"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = []
def bug(id, prop, edits, demo, needs, breaks, srcs='', flags='', pm=0):
    if isinstance(edits, tuple): edits = [edits]
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, srcs=srcs, flags=flags, pm=pm))
exec(open(os.path.join(V, 'tools', 'seeds_table.py')).read())
SH = '''#!/bin/bash
# exit 0: the library behaves; anything else: it does not (run in /repo)
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)
gcc -w -g -Igel -Itest -I. %s "$d/demo.c" %s -o "$t/demo" -lm && timeout 60 "$t/demo"; r=$?
rm -f "$t/demo"; rmdir "$t"; exit $r
'''
PM = '''#!/bin/bash
# exit 0: the page manager behaves; anything else: it does not (run in /repo).  The header is disabled by `#if 0`: it is enabled in a scratch copy
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); mkdir -p "$t/gel/pagemanager"; ln -s "$PWD/gel/collections" "$t/gel/collections"; cp gel/*.h "$t/gel/"
sed 's/^#if 0/#if 1/' gel/pagemanager/page_manager.h > "$t/gel/pagemanager/page_manager.h"; cp gel/pagemanager/page_manager.c "$t/gel/pagemanager/"
gcc -w -g -I"$t/gel/pagemanager" -I"$t/gel" -Itest -I. '-DGEL_PAGEMANAGER_CONFIGURATION_HEADER="gel_conf.h"' "$d/demo.c" "$t/gel/pagemanager/page_manager.c" -o "$t/demo" && timeout 60 "$t/demo"; r=$?
rm -f "$t/demo" "$t"/gel/pagemanager/* "$t"/gel/*.h "$t/gel/collections"; rmdir "$t/gel/pagemanager" "$t/gel" "$t"; exit $r
'''
def main():
    only = sys.argv[1:]
    w = tempfile.mkdtemp(prefix='seed_')
    subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
    r = w + '/r'
    ids = set()
    for b in B:
        assert b['id'] not in ids; ids.add(b['id'])
        if only and b['id'] not in only: continue
        for f, old, new in b['edits']:
            p = os.path.join(r, f); s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True, check=True).stdout
        subprocess.run(['git', '-C', r, 'checkout', '-q', '--', '.'], check=True)
        d = os.path.join(V, 'seeded', b['id']); os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.c', 'w').write(b['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(PM if b['pm'] else SH % (b['flags'], b['srcs']))
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w)
main()
