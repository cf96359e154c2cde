"""Builds the library natively from /repo's current tree and replays counterexamples against it."""
import hashlib, os, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import build
from build import REPO, RT, HARN, OUT, COMMON, run


def _cc(src, flags, tag):
    cc = ['clang++-18' if src.endswith('.cpp') else 'clang-18', '-std=c++17' if src.endswith('.cpp') else '-std=gnu11'] + COMMON + flags + ['-c']
    k = build._key(src, cc + [tag])
    d = os.path.join(OUT, 'nat'); os.makedirs(d, exist_ok=True)
    o = os.path.join(d, os.path.basename(src) + '.' + k + '.o')
    if not os.path.exists(o):
        run(cc + [src, '-o', o + '.tmp%d' % os.getpid()])
        os.rename(o + '.tmp%d' % os.getpid(), o)
    return o


def binary(harness, hook_free=False, extra=(), race=False):
    san = [] if hook_free else ['-fsanitize=thread'] if race else ['-fsanitize=address']
    flags = ['-O1', '-fPIC', '-DEG_NATIVE'] + san + (['-DEG_HOOK_FREE'] if hook_free else []) + list(extra)
    srcs = build.repo_sources() + [os.path.join(HARN, harness), os.path.join(RT, 'native_rt.cpp')]
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: _cc(s, flags, build.tree_hash()), srcs))
    h = hashlib.sha256('\n'.join(objs).encode()).hexdigest()[:16]
    out = os.path.join(OUT, 'nat', harness + '.' + h)
    if not os.path.exists(out):
        run(['clang++-18', '-rdynamic'] + san + objs + (['-Wl,--wrap=free'] if hook_free else []) + ['-Wl,--wrap=Lib_RandomBuffer_System_randombytes', '-Wl,--wrap=Hacl_HMAC_DRBG_generate', '-Wl,--wrap=Hacl_Streaming_SHA2_finish_256', '-Wl,--wrap=Hacl_HMAC_compute_sha2_256', '-Wl,--wrap=Hacl_Hash_SHA2_hash_256', '-Wl,--wrap=pthread_mutex_lock', '-Wl,--wrap=pthread_mutex_unlock', '-lfmt', '-lgmp', '-lpthread', '-ldl', '-o', out + '.tmp'])
        os.rename(out + '.tmp', out)
    return out


Q = 2 ** 256 - 189


def _parse(s):
    """a polynomial as printed by the engine -> [(coefficient, [(variable, power)])]"""
    r = []
    for part in s.split(' + '):
        c, vs = 1, []
        for f in part.split('*'):
            try:
                c = c * int(f, 0) % Q
                continue
            except ValueError:
                pass
            n, _, e = f.partition('^')
            if n.startswith(('byte#', 'dlog:', 'int(')) or '(' in n:
                return None
            vs.append((n, int(e or 1)))
        r.append((c, vs))
    return r


def _terms(subst, hashval, rnd):
    """values of the term variables that satisfy the substitutions of the path (equalities decided on it)"""
    polys = {k: _parse(v) for k, v in subst.items()}
    val, busy = {}, set()

    def get(n):
        if n in val:
            return val[n]
        if polys.get(n) is not None and n not in busy and not n.startswith('H:'):
            busy.add(n)
            t = 0
            for c, vs in polys[n]:
                for v, e in vs:
                    c = c * pow(get(v), e, Q) % Q
                t += c
            val[n] = t % Q
        elif n.startswith('H:'):
            val[n] = hashval.get(n, 12345)
        else:
            val[n] = rnd(n)
        return val[n]
    for k in polys:
        get(k)
    return {n[3:] if n.startswith('nr:') else n: v for n, v in val.items() if not n.startswith('H:')}


def replay(harness, entry, event, defs, path, extra=()):
    """returns (reproduced, text).  Writes the replay file to path.  The solver's inputs come first, then other inputs of
    the same path; equalities between group elements that the path assumes are met by the values of the elements (those
    that involve hashes by iteration: the hash of one run is the value in the next)."""
    kind, msg = event['kind'], event['msg']
    hook = 'released without being wiped' in msg
    race = kind == 'race'
    b = binary(harness, hook, extra, race)
    last = ''
    ins = [event['inputs']] + event.get('alts', [])
    subst = event.get('subst', {})
    log = path + '.hashes'
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0', TSAN_OPTIONS='exitcode=99', EG_HASHLOG=log)
    if race:
        env['EG_FREE'] = '1'
    t0 = time.time()
    try:
        for seed in range(1, 11 if race else 4):
            for inputs in ins if seed == 1 or race else ins[:1]:
                hv, before = {}, None
                for it in range(4 if subst else 1):
                    tv = _terms(subst, hv, lambda n: int.from_bytes(hashlib.sha512(('%d:%s' % (seed, n)).encode()).digest(), 'big') % Q) if subst else {}
                    if tv == before or time.time() - t0 > 200:
                        break
                    before = tv
                    with open(path, 'w') as f:
                        f.write('# %s: %s\n# replay: EG_REPLAY %s %s %s\n' % (kind, msg.replace('\n', ' '), b, entry, path))
                        f.write('seed\t%d\t\n' % seed)
                        for k, v in defs.items():
                            f.write('def\t%s\t%s\n' % (k, v))
                        for k, v in inputs.items():
                            f.write('in\t%s\t%s\n' % (k, v))
                        for k, v in tv.items():
                            f.write('in\tterm:%s\t%s\n' % (k, v.to_bytes(32, 'little').hex()))
                    try:
                        r = subprocess.run([b, entry, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=300, env=env)
                    except subprocess.TimeoutExpired:
                        last = 'replay timed out'
                        break
                    last = r.stdout[-3000:]
                    if r.returncode == 1 or r.returncode == 99 or r.returncode < 0:
                        return True, last
                    if subst and os.path.exists(log):
                        hv = {n: int(x, 16) % Q for n, x in zip(event.get('hashes', []), open(log).read().split())}
        return False, last
    finally:
        if os.path.exists(log):
            os.remove(log)
