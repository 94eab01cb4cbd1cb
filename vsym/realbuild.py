"""Compiles the extensions of the current tree into a scratch copy, for replays on the real code."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import threading

PY = sys.executable
EXT = {
    '_domain': (['_domain.pyx'], []),
    '_window': (['_window.pyx', '_window_imp.c'], []),
    '_invariant': (['_invariant.pyx'], ['pmesh']),
    '_whitenoise': (['_whitenoise.pyx', 'gsl/ranlxd.c', 'gsl/missing.c', 'gsl/rng.c', '_whitenoise_imp.c'], ['pmesh/gsl', 'pmesh']),
}
GENERATED = tuple(m + '.c' for m in EXT)


class BuildError(Exception):
    pass


def _files(repo):
    base = os.path.join(repo, 'pmesh')
    for root, dirs, files in os.walk(base):
        dirs[:] = sorted(d for d in dirs if d not in ('__pycache__', 'tests'))
        for f in sorted(files):
            if f.endswith(('.py', '.pyx', '.pxd', '.c', '.h')) and not (root == base and f in GENERATED):
                yield os.path.relpath(os.path.join(root, f), repo)


def _hash(repo, pred):
    h = hashlib.sha256()
    for f in _files(repo):
        if pred(f):
            h.update(f.encode() + b'\0')
            with open(os.path.join(repo, f), 'rb') as g:
                h.update(g.read())
            h.update(b'\0')
    return h.hexdigest()[:16]


def _run(cmd, cwd):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd)[:300], p.stdout.decode(errors='replace')[-1500:]))


def build_ext(mod, src, out, asan=False):
    import numpy
    import sysconfig
    srcs, incs = EXT[mod]
    base = os.path.join(src, 'pmesh')
    inc = ['-I' + base, '-I' + src, '-I' + numpy.get_include(), '-I' + sysconfig.get_paths()['include'], '-DNPY_NO_DEPRECATED_API=0'][:4]
    inc += ['-I' + os.path.join(src, i) for i in incs]
    flags = ['-O1', '-fPIC', '-w', '-fno-strict-aliasing', '-fwrapv']
    if asan:
        flags += ['-fsanitize=address', '-g', '-fno-omit-frame-pointer']
    objs = []
    threads, errs = [], []

    def job(f, o, pre=None):
        try:
            if pre:
                _run(pre, src)
            _run(['gcc', '-c'] + flags + inc + ['-o', o, f], src)
        except BuildError as e:
            errs.append(e)

    for f in srcs:
        o = os.path.join(out, mod + '_' + os.path.basename(f) + '.o')
        objs.append(o)
        p = os.path.join(base, f)
        pre = None
        if f.endswith('.pyx'):
            c = os.path.join(out, mod + '.gen.c')
            pre = [PY, '-m', 'cython', '--module-name', 'pmesh.' + mod, '-o', c, p]
            p = c
        t = threading.Thread(target=job, args=(p, o, pre))
        t.start()
        threads.append(t)
    for t in threads:
        t.join()
    if errs:
        raise errs[0]
    so = os.path.join(out, mod + sysconfig.get_config_var('EXT_SUFFIX'))
    _run(['gcc', '-shared'] + (['-fsanitize=address'] if asan else []) + ['-o', so] + objs + ['-lm'], src)
    return so


def real_build(repo, mods, asan=False, cache=None):
    """directory holding package pmesh: current Python sources and freshly built extensions"""
    cache = cache or os.environ.get('VERIF_BUILD_CACHE') or '/tmp/vq_build_%d' % os.getuid()
    os.makedirs(cache, exist_ok=True)
    hc = _hash(repo, lambda f: not f.endswith('.py'))
    hp = _hash(repo, lambda f: True)
    tag = 'asan' if asan else 'rel'
    d = os.path.join(cache, 'tree_%s_%s' % (hp, tag))
    with open(os.path.join(cache, 'lock_%s_%s' % (hp, tag)), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        pk = os.path.join(d, 'pmesh')
        if not os.path.exists(os.path.join(d, 'src_ok')):
            shutil.rmtree(d, ignore_errors=True)
            for f in _files(repo):
                t = os.path.join(d, f)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copyfile(os.path.join(repo, f), t)
            open(os.path.join(d, 'src_ok'), 'w').close()
        for m in mods:
            if os.path.exists(os.path.join(d, m + '.ok')):
                continue
            ec = os.path.join(cache, 'ext_%s_%s_%s' % (hc, tag, m))
            if not os.path.exists(os.path.join(ec, 'ok')):
                shutil.rmtree(ec, ignore_errors=True)
                os.makedirs(ec)
                build_ext(m, d, ec, asan)
                open(os.path.join(ec, 'ok'), 'w').close()
            for f in os.listdir(ec):
                if f.endswith('.so'):
                    shutil.copyfile(os.path.join(ec, f), os.path.join(pk, f))
            open(os.path.join(d, m + '.ok'), 'w').close()
    return d


if __name__ == '__main__':
    asan = '--asan' in sys.argv
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    print(real_build(a[0], a[1:], asan))
