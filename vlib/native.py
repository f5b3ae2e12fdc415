"""Out-of-tree builds of the native simulator from the current /repo working tree.

Variants: rel (the flags setup.py ends up with), nointrin (portable kernels), asan / asan_nointrin
(AddressSanitizer + UBSan, asserts as shipped), tsan (ThreadSanitizer, with our own tiny OpenMP runtime so that every
synchronisation is visible to the tool).
"""
import fcntl
import hashlib
import os
import subprocess
import sys
import sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIMDIR = os.path.join(REPO, 'projectq', 'backends', '_sim')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
EXT = sysconfig.get_config_var('EXT_SUFFIX')
BASE = ['-fno-strict-overflow', '-DNDEBUG', '-fPIC', '-std=c++17', '-fvisibility=hidden', '-w',
        '-DVERSION_INFO="0.8.0"']
SAN_UB = '-fsanitize=address,undefined'
NOREC = ['-fno-sanitize-recover=undefined', '-fno-sanitize=vptr']

VARIANTS = {
    'rel': dict(cxx='g++', flags=['-O2', '-g1', '-mavx2', '-DINTRIN', '-fopenmp', '-ffast-math'], link=['-fopenmp']),
    'nointrin': dict(cxx='g++', flags=['-O2', '-g1', '-mavx2', '-DNOINTRIN', '-fopenmp', '-ffast-math'], link=['-fopenmp']),
    'asan': dict(cxx='g++', flags=['-O1', '-g1', '-mavx2', '-DINTRIN', '-fopenmp', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', SAN_UB] + NOREC,
                 link=['-fopenmp', SAN_UB]),
    'asan_nointrin': dict(cxx='g++', flags=['-O1', '-g1', '-mavx2', '-DNOINTRIN', '-fopenmp', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', SAN_UB] + NOREC,
                          link=['-fopenmp', SAN_UB]),
    # clang instruments the component reads of std::complex that gcc leaves alone; it has no libomp here, so it runs serially
    'clang': dict(cxx='clang++', flags=['-O1', '-g1', '-mavx2', '-DINTRIN', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', SAN_UB,
                                        '-shared-libsan'] + NOREC, link=[SAN_UB, '-shared-libsan']),
    'tsan': dict(cxx='g++', flags=['-O1', '-g1', '-mavx2', '-DINTRIN', '-fopenmp', '-fsanitize=thread'],
                 link=['-fsanitize=thread'], shim=True),
    'tsan_nointrin': dict(cxx='g++', flags=['-O1', '-g1', '-mavx2', '-DNOINTRIN', '-fopenmp', '-fsanitize=thread'],
                          link=['-fsanitize=thread'], shim=True),
}


class BuildError(Exception):
    pass


def source_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(SIMDIR):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.hpp', '.h', '.cpp', '.cc', '.c', '.hh', '.hxx', '.inl')):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, SIMDIR).encode())
                h.update(open(p, 'rb').read())
    for p in (os.path.abspath(__file__), os.path.join(VERIF, 'native', 'gomp_shim.c')):
        if os.path.exists(p):
            h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]


def path(variant):
    return os.path.join(BUILD, source_hash(), variant, '_cppsim' + EXT)


def ensure(variant):
    """Build (if needed) and return the path of the module."""
    out = path(variant)
    if os.path.exists(out):
        return out
    d = os.path.dirname(out)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        v = VARIANTS[variant]
        import pybind11

        inc = ['-I' + pybind11.get_include(), '-I' + sysconfig.get_paths()['include'], '-I' + SIMDIR]
        srcs = [os.path.join(SIMDIR, f) for f in sorted(os.listdir(SIMDIR)) if f.endswith('.cpp')]
        objs = []
        for s in srcs:
            o = os.path.join(d, os.path.basename(s) + '.o')
            _run([v['cxx']] + BASE + v['flags'] + inc + ['-c', s, '-o', o])
            objs.append(o)
        if v.get('shim'):
            o = os.path.join(d, 'shim.o')
            _run(['gcc', '-O1', '-g1', '-fPIC', '-fsanitize=thread', '-c', os.path.join(VERIF, 'native', 'gomp_shim.c'), '-o', o])
            objs.append(o)
        tmp = out + '.tmp'
        _run([v['cxx'], '-shared', '-o', tmp] + objs + v['link'] + ['-lpthread'])
        os.rename(tmp, out)
        for o in objs:
            os.unlink(o)
    return out


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))


def prune(keep=3):
    """Remove old builds (keeps the newest ones)."""
    import shutil

    if not os.path.isdir(BUILD):
        return
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor

    vs = sys.argv[1:] or list(VARIANTS)
    with ThreadPoolExecutor(8) as ex:
        for v, o in zip(vs, ex.map(ensure, vs)):
            print(v, o)
    prune()
