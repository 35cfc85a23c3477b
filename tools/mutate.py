#!/usr/bin/env python3
"""python3 tools/mutate.py OUTLOG N SEED [file-substring]: random small mutations of /repo's sources in a scratch copy; those that compile and pass the
stable tests are given to the checks of the properties anchored in the file.  Survivors are listed for manual inspection."""
import json, os, random, re, subprocess, sys, shutil
MAP = {
 'src/core_astro/ic2par2ic.cpp': ['C01', 'C02'], 'src/core_astro/ic2eq2ic.cpp': ['C03'], 'src/core_astro/eq2par2eq.cpp': ['C04'],
 'src/core_astro/propagate_lagrangian.cpp': ['C08', 'C12', 'C09', 'C10', 'C11'], 'src/core_astro/stm.cpp': ['C10', 'C11'], 'src/lambert_problem.cpp': ['C14', 'C13', 'C15'],
 'src/leg/sims_flanagan.cpp': ['C20', 'C17', 'C19', 'C18', 'C16'], 'src/leg/sf_checks.cpp': ['C20', 'C28'], 'include/kep3/leg/sims_flanagan.hpp': ['C16', 'C20'],
 'include/kep3/core_astro/convert_anomalies.hpp': ['C05', 'C06', 'C09'], 'include/kep3/core_astro/kepler_equations.hpp': ['C07', 'C08', 'C09'],
 'include/kep3/core_astro/special_functions.hpp': ['C07', 'C09'], 'src/linalg.cpp': ['C11', 'C21'], 'src/core_astro/flyby.cpp': ['C21'],
 'src/epoch.cpp': ['C22', 'C23'], 'include/kep3/epoch.hpp': ['C22', 'C23', 'C16'], 'src/udpla/keplerian.cpp': ['C24', 'C16'], 'include/kep3/udpla/keplerian.hpp': ['C16'], 'src/udpla/jpl_lp.cpp': ['C25'],
 'src/planet.cpp': ['C26'], 'include/kep3/planet.hpp': ['C26'], 'src/ta/cr3bp.cpp': ['C27'], 'src/ta/stark.cpp': ['C27'], 'src/leg/sims_flanagan_hf.cpp': ['C28', 'C30', 'C16'], 'include/kep3/leg/sims_flanagan_hf.hpp': ['C16'],
 'src/stark_problem.cpp': ['C31', 'C16'], 'include/kep3/stark_problem.hpp': ['C16'],
 'include/kep3/lambert_problem.hpp': ['C16'], 'include/kep3/core_astro/convert_julian_dates.hpp': ['C22']}
D = os.environ.get('MUTDIR', '/tmp/w/mut')
OPS = [(r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
       (r' && ', [' || ']), (r' \|\| ', [' && ']), (r'\b2\b', ['3']), (r'\b1\b', ['0', '2']), (r'\b0\b', ['1']), (r'\b1\.', ['1.0001', '2.']), (r'\b0\.5\b', ['0.501']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'\bsin\(', ['cos(']), (r'\bcos\(', ['sin(']), (r'\bsinh\(', ['cosh(']), (r'\[0\]', ['[1]']), (r'\[1\]', ['[0]']), (r'\[2\]', ['[1]']), (r'\+= ', ['= ', '-= ']), (r'\*= ', ['= ']), (r'-= ', ['= ']),
       (r'\bfwd\b', ['bck']), (r'\+\+i', ['i += 2']), (r'if \((.*)\) \{', [r'if ((\1) && false) {', r'if ((\1) || true) {']), (r'^(\s+)(\w[\w.\[\]()]*) = (.*);$', [r'\1;', r'\1\2 = 1.0000001 * (\3);']), (r'std::abs\(', ['(']), (r'm_(\w+)_fwd', [r'm_\1_bck']), (r'static_cast<double>', ['static_cast<float>'])]
def sites(s):
    out = []
    code = 0
    for n, l in enumerate(s.split('\n')):
        t = l.strip()
        if t.startswith(('//', '#', '*', '/*', 'namespace', 'using', 'template', 'fmt', 'os <<', 'return os', 'LCOV', 'assert')) or 'fmt::' in t or '<<' in t or 'LCOV' in t or 'throw' in t or 'get_extra_info' in t: continue
        c = l.split('//')[0]
        for a, bs in OPS:
            for m in re.finditer(a, c):
                for b in bs:
                    x = c[:m.start()] + m.expand(b) + c[m.end():]
                    if x != c: out.append((n, x + l[len(c):]))
    return out
def sh(c, t=900):
    try: return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        class R: returncode, stdout, stderr = 124, '', 'timeout'
        return R
def main(out, N, seed, sub=''):
    rng = random.Random(seed)
    if not os.path.exists(D):
        os.makedirs(D)
        sh('git -C /repo archive HEAD | tar x -C ' + D)
        print(sh('CC=gcc CXX=g++ cmake -S /opt/vp/cmake -B %s/_build -G Ninja -DKEP3_ROOT=%s -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C %s/_build' % (D, D, D)).stdout[-300:])
    built = {'src/core_astro/' + x + '.cpp' for x in ('ic2par2ic', 'ic2eq2ic', 'eq2par2eq', 'propagate_lagrangian', 'stm')} | {'src/linalg.cpp', 'src/lambert_problem.cpp', 'src/leg/sims_flanagan.cpp', 'src/leg/sf_checks.cpp'}
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    log = open(out, 'a')
    def p(*a): print(*a, file=log, flush=True)
    pool = [f for f in MAP if sub in f]
    src = {f: open(D + '/' + f).read() for f in pool}
    st = {f: sites(src[f]) for f in pool}
    done = 0
    while done < N:
        f = rng.choice(pool)
        if not st[f]: pool.remove(f); continue
        n, x = st[f].pop(rng.randrange(len(st[f])))
        L = src[f].split('\n'); old = L[n]; L[n] = x
        open(D + '/' + f, 'w').write('\n'.join(L))
        try:
            if f in built or f.endswith('.hpp'):
                if sh('ninja -C %s/_build' % D).returncode: continue
                bad = False
                for e in sorted({t.split('::')[0] for t in stable}):
                    if sh('cd %s/_build && OPENBLAS_NUM_THREADS=1 TZ=UTC ./%s' % (D, e), 60).returncode: bad = True; break
                if bad: continue
            done += 1
            res = []
            for c in MAP[f]:
                r = sh('cd /verif && KV_REPO=%s KV_W=300 python3-vt -m kvc.run %s' % (D, c))
                res.append((c, r.returncode))
                if r.returncode == 1: break
                if r.returncode == 2 and 'does not compile' in r.stdout: break
            tag = 'caught' if res[-1][1] == 1 else 'nocompile' if res[-1][1] == 2 else 'SURVIVED'
            p(tag, f, n + 1, res, '\n     -', old.strip(), '\n     +', x.strip())
            if tag == 'SURVIVED': p('     ', [l for l in r.stdout.split('\n') if 'UNDEC' in l][:2])
        finally:
            open(D + '/' + f, 'w').write(src[f])
    p('END')
if __name__ == '__main__': main(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), *sys.argv[4:])
