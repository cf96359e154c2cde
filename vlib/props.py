"""Which harness entries decide which property, with their bounds."""
import json, os, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unit:
    def __init__(self, harness, entry, overrides=(), bounds='', defs=None, tdefs=None, reach=(1,), timeout=300, ttimeout=3600, tiers=('quick', 'thorough'), jobs=4, max_paths=100000, replay=True, cflags=()):
        self.harness, self.entry, self.overrides, self.bounds = harness, entry, list(overrides), bounds
        self.defs, self.tdefs, self.reach, self.timeout, self.ttimeout = defs or {}, tdefs or {}, list(reach), timeout, ttimeout
        self.tiers, self.jobs, self.max_paths, self.replay, self.cflags = tiers, jobs, max_paths, replay, tuple(cflags)

    def defs_for(self, tier):
        d = dict(self.defs)
        if tier == 'thorough':
            d.update(self.tdefs)
        return d

    def timeout_for(self, tier):
        return self.timeout if tier == 'quick' else self.ttimeout


class Prop:
    def __init__(self, units, assumptions=(), parallel=4):
        self.units, self.assumptions, self.parallel = units, list(assumptions), parallel


LB = ['hacl_contract.c']
LC = ['sym_group.cpp']
A_IR = 'the clang-18 -O1 LLVM IR of the translation units is what is executed; the C++ standard library parts that live outside headers are modelled in rt/runtime.cpp and rt/libc.c'
A_HACL = 'products and remainders of the HACL* bignum kernels are used through their mathematical contracts (assumed; additions, comparisons and conversions are decided by C03)'
A_GROUP = 'group operations act on exact field terms (their exactness is decided by C01, C02 and C04); SHA-256 and HMAC are injective uninterpreted functions'
A_LOG = 'log output and calendar formatting are stand-ins'

PROPS = {}
from propdefs import define  # noqa: E402
define(PROPS, Unit, Prop, globals())


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop and k.get('status') == 'open']


def _demangle(names):
    try:
        r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), stdout=subprocess.PIPE, text=True, timeout=20)
        return r.stdout.split('\n')
    except Exception:
        return names


def write_evidence(pid, P, tier, results, viol, known, incon, wall):
    tot = {}
    fns = set()
    samples, units = [], []
    for r in results:
        rep = r.get('report', {})
        for k in ('paths', 'paths_completed', 'paths_assumed_away', 'forks', 'instructions', 'assertions_evaluated', 'assertions_by_solver', 'queries', 'sat', 'unsat', 'unknown', 'polynomial_identities', 'hash_calls', 'integer_queries', 'byte_table_queries'):
            tot[k] = tot.get(k, 0) + rep.get(k, 0)
        tot['solver_s'] = round(tot.get('solver_s', 0) + rep.get('solver_s', 0), 3)
        fns.update(rep.get('functions', []))
        units.append({'entry': r['entry'], 'harness': r['harness'], 'status': r['status'], 'reason': r.get('reason'), 'bounds': r['bounds'], 'defs': r['defs'], 'paths': rep.get('paths'), 'queries': rep.get('queries'), 'wall_s': rep.get('wall_s'),
                      'reach': {str(i): v for i, v in enumerate(rep.get('reach', [])) if v}})
        samples.append('%s: %s paths, %s solver queries (%s unsat), %s assertions, status %s' % (r['entry'], rep.get('paths'), rep.get('queries'), rep.get('unsat'), rep.get('assertions_evaluated'), r['status']))
    names = sorted(n for n in set(_demangle(sorted(fns))) if n.startswith(('electionguard::', 'Hacl_', 'hacl::', 'eg_')) or '(anonymous' in n)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
          'coverage': {'states': tot.get('paths', 0), 'transitions': tot.get('instructions', 0), 'traces_validated_against_impl': sum(1 for r in results for e in r['events'] if e.get('replayed')),
                       'samples': samples, 'exhaustive': not incon and not viol, 'units': units, 'totals': tot, 'functions_encoded': names[:400], 'functions_encoded_count': len(names),
                       'inconclusive': [{'entry': a, 'reason': b[:500]} for a, b in incon], 'known_findings': [k[0] for k in known],
                       'rule': 'states are symbolic paths (each stands for every input satisfying its path condition), transitions are IR instructions executed symbolically; every branch on symbolic data and every assertion is decided by Z3, identities between field terms by polynomial normal form'},
          'assumptions': P.assumptions, 'wall_s': round(wall, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
