#!/usr/bin/env python3
"""mkseed.py SPEC.py : write seeded/<id>/ from a python file with
   id, property, needs, breaks, edits=[(file, old, new)], pkg, test (Go source of an in-package test), run (regex)
   run=None and demo=<bash text> for another kind of demonstration."""
import sys, os, json, subprocess, tempfile, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = '/verif/seeded/' + ns['id']
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix='mkseed', dir='/tmp')
diff = ''
for f in dict.fromkeys(e[0] for e in ns['edits']):
    a = open('/repo/' + f).read(); b = a
    for (g, old, new) in ns['edits']:
        if g != f: continue
        assert b.count(old) == 1, (f, old, b.count(old))
        b = b.replace(old, new)
    for k, s in (('a', a), ('b', b)):
        os.makedirs(os.path.dirname(f'{t}/{k}/{f}'), exist_ok=True); open(f'{t}/{k}/{f}', 'w').write(s)
    o = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, f'a/{f}', f'b/{f}'], cwd=t, capture_output=True, text=True).stdout
    diff += f'diff --git a/{f} b/{f}\n' + o
    # removed or replaced lines have to be original ones
    bl = subprocess.run(['git', 'blame', '-s', f], cwd='/repo', capture_output=True, text=True).stdout.splitlines()
    n = 0; orig = False
    for l in o.splitlines():
        if l.startswith('@@'): n = int(l.split()[1].split(',')[0][1:]) - 1; continue
        if l.startswith('---') or l.startswith('+++'): continue
        if l.startswith(' '): n += 1
        elif l.startswith('-'):
            n += 1
            if bl[n - 1].startswith('^'): orig = True
            else: print('NOT ORIGINAL', f, n, l)
    print(f, 'touches original lines' if orig else 'NO ORIGINAL LINE TOUCHED')
shutil.rmtree(t)
open(d + '/patch.diff', 'w').write(diff)
json.dump({'property': ns['property'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
if ns.get('demo'):
    open(d + '/demo.sh', 'w').write(ns['demo'])
else:
    open(d + '/demo_test.go', 'w').write(ns['test'].lstrip())
    pkg = ns['pkg']
    open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# run with cwd = the repository, after the build
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export TMPDIR=$W
cat > "$W/overlay.json" <<J
{{"Replace": {{"$PWD/{pkg}/zz_demo_test.go": "$D/demo_test.go"}}}}
J
timeout 280 go test {ns.get('flags', '')}-count=1 -timeout 250s -overlay "$W/overlay.json" -run '{ns.get("run", "TestDemo")}$' ./{pkg}
''')
for name, txt in ns.get('files', {}).items(): open(f'{d}/{name}', 'w').write(txt)
os.chmod(d + '/demo.sh', 0o755)
