"""Compile /repo's current sources: IR for the verifier, shared library for replay.  Everything goes to a scratch build directory."""
import concurrent.futures, hashlib, os, re, shutil, subprocess, sys, tempfile, atexit, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KV_REPO', '/repo')
IRFLAGS = ['-std=c++20', '-O1', '-fno-inline', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-DNDEBUG', '-DKV_VERIFY',
           '-DBOOST_ALLOW_DEPRECATED_HEADERS', '-w', '-fno-access-control', '-D_GLIBCXX_EXTERN_TEMPLATE=0']
class BuildError(Exception): pass
_dir = None
_lock = threading.Lock()
def scratch():
    with _lock: return _scratch()
def _scratch():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='kv_')
        atexit.register(shutil.rmtree, _dir, True)
        os.makedirs(_dir + '/inc/kep3')
        cfg = open(REPO + '/config.hpp.in').read()
        cfg = re.sub(r'@kep3_VERSION_MAJOR@|@kep3_VERSION_MINOR@', '0', cfg)
        cfg = re.sub(r'@kep3_VERSION_PATCH@', '1', cfg)
        cfg = re.sub(r'@kep3_VERSION@', '0.0.1', cfg)
        cfg = re.sub(r'@\w+@', '', cfg)
        open(_dir + '/inc/kep3/config.hpp', 'w').write(cfg)
    return _dir
def _run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr[-4000:])
def _runp(src, cmd):
    """a driver that looks at private members may stop compiling after a renaming: then it is built without them"""
    try: _run(cmd)
    except BuildError:
        if not src.startswith('drivers/') or 'KV_NOPRIV' not in open(VERIF + '/' + src).read(): raise
        _run(cmd[:1] + ['-DKV_NOPRIV'] + cmd[1:]); NOPRIV.add(src)
NOPRIV = set()
def ir(src, extra=(), stubs=True):
    d = scratch()
    path = src if src.startswith('/') else (VERIF + '/' + src if src.startswith('drivers/') else REPO + '/' + src)
    out = d + '/' + re.sub(r'\W', '_', src) + hashlib.md5(repr(extra).encode()).hexdigest()[:4] + '.ll'
    if not os.path.exists(out):
        _runp(src, ['clang++-18'] + IRFLAGS + list(extra) + (['-I' + VERIF + '/stubs'] if stubs else []) + ['-I' + REPO + '/include', '-I' + d + '/inc', '-I' + VERIF + '/drivers', '-S', '-emit-llvm', path, '-o', out + '.tmp'])
        os.rename(out + '.tmp', out)
    return out
def program(srcs, extra=()):
    from .llir import Program
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda s: ir(s, extra), srcs))
    return Program(list(zip(outs, srcs)))
def shared(name, srcs, extra=(), libs=(), stubs=(), san=False):
    """replay library: real sources, real Boost, g++"""
    d = scratch()
    so = d + '/' + name + '.so'
    if os.path.exists(so): return so
    inc = [x for s in stubs for x in ('-I', s)] + ['-I' + REPO + '/include', '-I' + d + '/inc', '-I' + VERIF + '/drivers']
    def one(s):
        path = VERIF + '/' + s if s.startswith('drivers/') else REPO + '/' + s
        o = d + '/' + name + re.sub(r'\W', '_', s) + '.o'
        _runp(s, ['g++', '-std=c++20', '-O1', '-fPIC', '-DKV_REPLAY', '-DBOOST_ALLOW_DEPRECATED_HEADERS', '-w', '-fno-access-control'] + (['-fsanitize=undefined', '-fno-sanitize-recover'] if san else []) + list(extra) + inc + ['-c', path, '-o', o])
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, srcs))
    _run(['g++', '-shared', '-o', so] + objs + list(libs))
    return so
