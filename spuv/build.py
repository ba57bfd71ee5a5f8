"""Builds what a check needs from /repo's current tree: the exporter, protobuf code, AST exports, native harnesses."""
import hashlib
import os
import re
import threading
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SPUV_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
SRC = REPO + '/src/libspu'

CXX = ['-std=gnu++17', '-w', '-DSPU_BUILD']


def incs(gen):
    return ['-I' + VERIF + '/shim/include', '-I' + gen, '-I' + REPO + '/src', '-isystem', '/usr/include/eigen3', '-isystem', '/usr/lib/llvm-18/include']


_th = None


def tree_hash():
    """hash of every source file of /repo/src plus the tool chain pieces in /verif"""
    global _th
    if _th is None:
        h = hashlib.sha256()
        for root in (REPO + '/src', VERIF + '/shim', VERIF + '/exporter', VERIF + '/harness', VERIF + '/native'):
            for d, ds, fs in sorted(os.walk(root)):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith(('.h', '.cc', '.proto', '.hpp', '.sh', '.inc', '.def')) or '/shim/' in d + '/':
                        p = os.path.join(d, f)
                        h.update(p.encode())
                        with open(p, 'rb') as fh:
                            h.update(fh.read())
        _th = h.hexdigest()[:16]
    return _th


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def exporter():
    exe = BUILD + '/spuexport'
    src = VERIF + '/exporter/spuexport.cc'
    stamp = exe + '.stamp'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    # a committed build of exactly this source, when it runs here; otherwise it is built
    pre = VERIF + '/bin/spuexport'
    if os.path.exists(pre) and os.path.exists(pre + '.stamp') and open(pre + '.stamp').read().strip() == h:
        try:
            if run([pre, '--version'], timeout=60).returncode != 127:
                return pre
        except (OSError, subprocess.TimeoutExpired):
            pass
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h):
        os.makedirs(BUILD, exist_ok=True)
        r = run(['bash', VERIF + '/exporter/build.sh', exe])
        if r.returncode:
            raise RuntimeError('exporter build failed: ' + r.stderr[-2000:])
        with open(stamp, 'w') as f:
            f.write(h)
    return exe


def cachedir():
    d = BUILD + '/cache/' + tree_hash()
    if not os.path.isdir(d):
        # keep the cache small: drop older trees
        base = BUILD + '/cache'
        if os.path.isdir(base):
            olds = sorted((os.path.getmtime(base + '/' + x), x) for x in os.listdir(base))
            for _, x in olds[:-3]:
                subprocess.run(['rm', '-rf', base + '/' + x])
        os.makedirs(d, exist_ok=True)
    return d


def gen():
    d = cachedir() + '/gen'
    if not os.path.exists(d + '/.ok'):
        r = run(['bash', VERIF + '/shim/genpb.sh', d])
        if r.returncode:
            raise RuntimeError('protobuf generation failed: ' + r.stderr[-2000:])
        open(d + '/.ok', 'w').write('ok')
    return d


class ExportError(Exception):
    pass


def export(files):
    """files: paths relative to src/libspu, or absolute. returns jsonl paths"""
    exe = exporter()
    g = gen()
    d = cachedir() + '/exp'
    os.makedirs(d, exist_ok=True)

    def one(f):
        roots = []
        if isinstance(f, tuple):
            f, roots = f[0], list(f[1:])
        path = f if f.startswith('/') else SRC + '/' + f
        out = d + '/' + path.strip('/').replace('/', '_') + '.jsonl'
        if os.path.exists(out):
            return out
        args = []
        for x in roots:
            args += ['-root', x]
        r = run([exe, '-o', out + '.tmp%d' % os.getpid(), '-all', '-prefix', REPO + '/src', *args, path, '--', *CXX, '-Wno-enum-constexpr-conversion',
                 '-I' + VERIF + '/shim/omp', *incs(g), '-resource-dir', '/usr/lib/llvm-18/lib/clang/18'])
        if r.returncode != 0:
            raise ExportError('%s does not parse: %s' % (f, r.stderr[-1500:]))
        os.rename(out + '.tmp%d' % os.getpid(), out)
        return out
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, files))


# ---------------------------------------------------------------- native builds
OBJLOCK = {}


def shadow(tasks):
    """a copy of core/parallel_utils.h in which the work per task is `tasks` elements instead of the constant of the tree (the
    only text changed), so that small arrays are split over several tasks and tiles"""
    p = 'libspu/core/parallel_utils.h'
    t, k = re.subn(r'(kMinTaskSize\s*=\s*)\d+', r'\g<1>%d' % tasks, open(REPO + '/src/' + p).read())
    if not k:
        raise ExportError('kMinTaskSize not found')
    d = cachedir() + '/shadow%d' % tasks
    os.makedirs(os.path.dirname(d + '/' + p), exist_ok=True)
    tmp = d + '/' + p + '.%d.%d' % (os.getpid(), threading.get_ident())
    open(tmp, 'w').write(t)
    os.rename(tmp, d + '/' + p)
    return ['-I' + d]


def native(name, sources, main, extra=(), opt='-O1', timeout=600, san=False, tasks=None):
    """compile /repo sources + a harness main into an executable; returns path"""
    g = gen()
    d = cachedir() + '/nat'
    os.makedirs(d, exist_ok=True)
    flags = [opt, '-g0', *CXX, '-fopenmp', *(shadow(tasks) if tasks else ()), *incs(g)]
    if san:
        flags += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=pointer-overflow']
    h6 = lambda fl: ('s' if san else '') + hashlib.sha256(' '.join(fl).encode()).hexdigest()[:6]
    tag, mtag = h6(flags), h6([*flags, *extra, *sources])

    def cc(path, out):
        with OBJLOCK.setdefault(out, threading.Lock()):
            if os.path.exists(out):
                return None
            tmp = out + '.tmp%d.%d' % (os.getpid(), threading.get_ident())
            r = run(['g++', '-c', *flags, *(extra if path == main else ()), path, '-o', tmp], timeout=timeout)
            if r.returncode:
                return path + ': ' + r.stderr[-3000:]
            os.rename(tmp, out)
            return None
    jobs = []
    for s in sources:
        path = s if s.startswith('/') else SRC + '/' + s
        o = d + '/' + path.strip('/').replace('/', '_') + tag + '.o'
        jobs.append((path, o))
    pb = g + '/libspu/spu.pb.cc'
    jobs.append((pb, d + '/spu.pb%s.o' % tag))
    exe = d + '/' + name + mtag
    mo = d + '/' + name + mtag + '.main.o'
    jobs.append((main, mo))
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(lambda j: cc(*j), jobs) if e]
    if errs:
        raise ExportError('native build failed: ' + errs[0])
    if not os.path.exists(exe):
        r = run(['g++', '-fopenmp', *(['-fsanitize=address,undefined'] if san else []), *[o for _, o in jobs], '-o', exe + '.tmp', '-Wl,--unresolved-symbols=ignore-all',
                 '-lprotobuf', '-labsl_throw_delegate', '-labsl_raw_logging_internal', '-lpthread', '-ldl'])
        if r.returncode:
            raise ExportError('native link failed: ' + r.stderr[-3000:])
        os.rename(exe + '.tmp', exe)
    return exe
