#!/usr/bin/env python3
"""lllist.py TARGET_DIR: lists the .ll files of the last build (cargo's messages in build.json); files of
earlier builds, with the same symbols, may still lie beside them"""
import json, os, sys
d = sys.argv[1]
deps = d + '/x86_64-unknown-linux-gnu/debug/deps'
have = {f for f in os.listdir(deps) if f.endswith('.ll')}
use = set()
for l in open(d + '/build.json'):
    m = json.loads(l)
    if m.get('reason') == 'compiler-artifact':
        for f in m['filenames'] + [m.get('executable') or '']:
            b = os.path.basename(f).rsplit('.', 1)[0]
            for c in (b, b[3:]):
                if c + '.ll' in have:
                    use.add(c + '.ll')
open(deps + '/ll.list', 'w').write('\n'.join(sorted(use)) + '\n')
