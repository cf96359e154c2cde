"""Builds the symbolic executor and LLVM bitcode from /repo's current working tree."""
import hashlib, os, re, subprocess, sys, shutil, fcntl, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EG_REPO', '/repo')
OUT = os.environ.get('EG_OUT', os.path.join(VERIF, '.build'))
RT = os.path.join(VERIF, 'rt')
HARN = os.path.join(VERIF, 'harness')
DEFS = ['LOG_DEBUG', 'EXPORT_INTERNALS', 'HACL_CAN_COMPILE_VEC128', 'HACL_CAN_COMPILE_VEC256', 'USE_STANDARD_PRIMES', 'ELECTIONGUARD_BUILD_SHARED', 'SPDLOG_HEADER_ONLY']
INCS = [REPO + '/include', REPO + '/src', REPO + '/src/electionguard', REPO + '/src/karamel', RT, HARN]
COMMON = ['-D' + d for d in DEFS] + ['-I' + i for i in INCS] + ['-w', '-gline-tables-only', '-fno-pic']
IRF = ['-O1', '-Xclang', '-mno-constructor-aliases', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-emit-llvm', '-c']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd)[:300], r.stdout[:1500]))
    return r.stdout


class Lock:
    def __enter__(self):
        os.makedirs(OUT, exist_ok=True)
        self.f = open(os.path.join(OUT, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def ensure_engine():
    with Lock():
        eng = os.path.join(VERIF, 'engine')
        h = hashlib.sha256()
        for f in sorted(os.listdir(eng)):
            h.update(open(os.path.join(eng, f), 'rb').read())
        stamp = os.path.join(OUT, 'engine.stamp')
        exe = os.path.join(OUT, 'egsym')
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest()):
            run(['make', '-j8', '-C', eng, 'OUT=' + OUT])
            open(stamp, 'w').write(h.hexdigest())
    return exe


def repo_sources():
    t = open(REPO + '/src/CMakeLists.txt').read()
    t = re.sub(r'#[^\n]*', '', t)
    i = t.index('set(PROJECT_SOURCE_FILES')
    t = t[i:t.index(')', i)]
    return [REPO + m for m in re.findall(r'\$\{PROJECT_SOURCE_DIR\}(/\S+\.(?:cpp|c))\b', t)]


_tree = None


def tree_hash():
    """content hash of everything a translation unit of the library can include"""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for base in ('include', 'src'):
            for d, ds, fs in sorted(os.walk(os.path.join(REPO, base))):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
        _tree = h.hexdigest()
    return _tree


def _key(src, flags):
    h = hashlib.sha256()
    h.update(open(src, 'rb').read())
    if not src.startswith(RT) or os.path.basename(src) in ('stubs.cpp', 'sym_group.cpp'):
        h.update(tree_hash().encode())
    for base in (RT, HARN):
        for f in sorted(os.listdir(base)):
            if f.endswith(('.h', '.hpp')):
                h.update(open(os.path.join(base, f), 'rb').read())
    h.update(' '.join(flags).encode())
    return h.hexdigest()[:24]


_locks, _locksLock = {}, threading.Lock()


def _lock(path):
    """one thread of this process at a time makes each file"""
    with _locksLock:
        return _locks.setdefault(path, threading.Lock())


def compile_ir(src, extra=()):
    cc = ['clang++-18' if src.endswith('.cpp') else 'clang-18', '-std=c++17' if src.endswith('.cpp') else '-std=gnu11'] + COMMON + IRF + list(extra)
    k = _key(src, cc)
    d = os.path.join(OUT, 'ir'); os.makedirs(d, exist_ok=True)
    o = os.path.join(d, os.path.basename(src) + '.' + k + '.bc')
    with _lock(o):
        if not os.path.exists(o):
            tmp = o + '.%d.tmp' % os.getpid()
            run(cc + [src, '-o', tmp])
            os.rename(tmp, o)
    return o


# functions of these files may be replaced by override modules, so calls to them must stay calls
NOINLINE = ('electionguard/group.cpp', 'Hacl_Bignum256.cpp', 'Hacl_Bignum4096.cpp', '.c')
INTERPOSE = ('-fPIC', '-fsemantic-interposition')
NOLOG = ('electionguard/log.cpp',)


def runtime():
    return [(RT + '/runtime.cpp', ('-fno-access-control',)), (RT + '/libc.c', ('-fno-builtin',)), (RT + '/stubs.cpp', ())]


def link(harness, overrides=(), pick=None, extra=(), drop=()):
    """link one harness with the library (pick: predicate on repo source paths), runtime and override modules; returns the bitcode path"""
    srcs = [s for s in repo_sources() if not s.endswith(NOLOG)]
    if pick:
        srcs = [s for s in srcs if pick(s)]
    jobs = [(s, INTERPOSE if s.endswith(NOINLINE) else ()) for s in srcs] + runtime()
    hsrc = os.path.join(HARN, harness)
    jobs.append((hsrc, tuple(extra)))
    ov = [(os.path.join(RT, o), ()) for o in overrides]
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_ir(*j), jobs + ov))
    base, over = objs[:len(jobs)], objs[len(jobs):]
    h = hashlib.sha256('\n'.join(objs).encode()).hexdigest()[:16]
    entries = re.findall(r'ENTRY\((\w+)\)', open(hsrc).read())
    out = os.path.join(OUT, 'ir', harness + '.' + h + '.linked.bc')
    with _lock(out):
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            run(['llvm-link-18', '-o', tmp] + base + ['--override=' + o for o in over])
            run(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(entries), tmp, '-o', tmp + '2'])
            os.unlink(tmp)
            os.rename(tmp + '2', out)
    return out
