#!/usr/bin/env python3
"""python3 tools/plant.py [ids]: (re)creates and confirms the planted bugs described in tools/bugs*.py.
For each: apply to /repo, build, stable tests, demo must fail; undo, build, demo must pass; then the check of its property."""
import glob, importlib.util, json, os, subprocess, sys, shutil
V = '/verif'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
# builds a small program against the tree in the current directory and runs it
D="$(cd "$(dirname "$0")" && pwd)"; W=$(mktemp -d); trap 'rm -r "$W"' EXIT
R=$(pwd)
g++ -std=c++20 -O1 -w -DBOOST_ALLOW_DEPRECATED_HEADERS %(inc)s -I"$R/include" -I"$R/_build/include" -I"$D" "$D/demo.cpp" %(src)s -L"$R/_build" -lkep3 -lfmt -Wl,-rpath,"$R/_build" %(libs)s -o "$W/demo" || exit 3
"$W/demo"
'''
def load():
    B = {}
    for f in sorted(glob.glob(V + '/tools/bugs*.py')):
        sp = importlib.util.spec_from_file_location('b', f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        B.update(m.BUGS)
    return B
def main(ids, check=True):
    B = load()
    if sh('git -C /repo status --porcelain').stdout.strip(): sys.exit('/repo is dirty')
    for k in ids or B:
        b = B[k]
        d = '%s/seeded/%s' % (V, k)
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in b['edits']:
                p = '/repo/' + f
                s = open(p).read()
                if s.count(old) != 1: print(k, 'EDIT does not match once:', f, s.count(old)); raise KeyError
                open(p, 'w').write(s.replace(old, new))
            open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
            open(d + '/demo.cpp', 'w').write(b['demo'])
            for n, t in b.get('files', {}).items(): os.makedirs(os.path.dirname(d + '/' + n), exist_ok=True); open(d + '/' + n, 'w').write(t)
            open(d + '/demo.sh', 'w').write(DEMO % dict(inc=b.get('inc', ''), src=b.get('src', ''), libs=b.get('libs', '')))
            os.chmod(d + '/demo.sh', 0o755)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
            r = sh('bash /opt/vp/test.sh /tmp/w/o.json')
            o = json.load(open('/tmp/w/o.json'))
            st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            missing = st - set(o['passed'])
            x = sh('bash %s/demo.sh' % d, cwd='/repo')
            c = None
            if check: c = sh('timeout 900 python3-vt -m kvc.run %s' % b['property'], cwd=V, env=dict(os.environ, KV_W='300'))
        except KeyError: continue
        finally: sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
        y = sh('bash %s/demo.sh' % d, cwd='/repo')
        ok = not missing and x.returncode not in (0, 3) and y.returncode == 0
        print(k, b['property'], 'CONFIRMED' if ok else 'NOT OK', 'tests missing: %s' % sorted(missing)[:4] if missing else '', 'demo patched rc=%d clean rc=%d' % (x.returncode, y.returncode), flush=True)
        if not ok: print('   ', x.stdout[-300:], x.stderr[-600:], '|', y.stdout[-300:], y.stderr[-300:], r.stderr[-600:] if missing else '')
        if c is not None:
            L = [l for l in c.stdout.splitlines() if l.startswith(('VIOLATION', 'FAILED', 'ERROR'))]
            print('    check rc=%d %s' % (c.returncode, ' / '.join(l[:260] for l in L[:1] + L[-1:])), flush=True)
if __name__ == '__main__':
    a = sys.argv[1:]
    main([x for x in a if x != '-n'], '-n' not in a)
