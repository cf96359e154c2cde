#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--only ENTRY]

Decides one property: compiles /repo's current tree to LLVM IR, executes the property's harnesses symbolically and
lets Z3 decide every branch and assertion.  A counterexample is replayed against the natively compiled library.
exit 0: held on everything explored; exit 1 + VIOLATION line: a counterexample that the real code reproduces.
"""
import argparse, json, os, subprocess, sys, time, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'vlib'))
import build, native, props


def run_unit(u, tier, exe, tmp, deadline):
    r = {'entry': u.entry, 'harness': u.harness, 'defs': u.defs_for(tier), 'bounds': u.bounds, 'status': 'ok', 'events': []}
    try:
        mod = build.link(u.harness, u.overrides, extra=u.cflags)
    except build.BuildError as e:
        r.update(status='inconclusive', reason='encoding could not be built: ' + str(e)[:1200])
        return r
    out = os.path.join(tmp, '%s.%s.%x.json' % (u.harness, u.entry, id(u)))
    budget = min(u.timeout_for(tier), deadline - time.time())
    if budget < 5:
        r.update(status='inconclusive', reason='no time left')
        return r
    cmd = [exe, mod, '--entry', u.entry, '--out', out, '--jobs', str(u.jobs), '--timeout', '%.0f' % budget, '--max-paths', str(u.max_paths)]
    for k, v in r['defs'].items():
        cmd += ['--def', '%s=%s' % (k, v)]
    for attempt in (1, 2):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=budget + 30, start_new_session=True)
            rc = p.returncode; err = p.stderr[-1500:]
        except subprocess.TimeoutExpired as e:
            subprocess.run(['pkill', '-9', '-f', out]); rc = 2; err = 'hard timeout'
        if rc >= 0 or os.path.exists(out) or deadline - time.time() < 60:   # ended from outside (out of memory): once more
            break
    try:
        d = json.load(open(out))
    except Exception as e:
        r.update(status='inconclusive', reason='no report (rc %s): %s' % (rc, err))
        return r
    r['report'] = d
    r['events'] = [e for e in d['events'] if e['event'] == 'violation']
    if r['events']:
        r['status'] = 'violation'
    elif d['errors'] or rc == 2:
        r['status'] = 'inconclusive'
        r['reason'] = '; '.join((e['msg'] + ' @ ' + e['where'][:400]) for e in d['events'] if e['event'] == 'error')[:1500] or err
    else:
        miss = [i for i in u.reach if not d['reach'][i]]
        if miss:
            r['status'] = 'inconclusive'
            r['reason'] = 'expected points %s were not reached on any path (vacuous)' % miss
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?'); ap.add_argument('--setup', action='store_true'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    if a.setup:  # engine and bitcode of the unchanged parts, so that the checks start warm
        build.ensure_engine()
        seen = set()
        for p in props.PROPS.values():
            for u in p.units:
                k = (u.harness, tuple(u.overrides), u.cflags)
                if k not in seen:
                    seen.add(k)
                    build.link(u.harness, u.overrides, extra=u.cflags)
        print('setup done: %d modules' % len(seen))
        return 0
    t0 = time.time()
    P = props.PROPS[a.prop]
    limit = 800 if tier == 'quick' else 6 * 3600
    deadline = t0 + limit
    units = [u for u in P.units if tier in u.tiers and (not a.only or u.entry == a.only)]
    tmp = tempfile.mkdtemp(prefix='egcheck.')
    rdir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    viol, known, incon, results = [], [], [], []
    try:
        try:
            exe = build.ensure_engine()
            err = None
        except build.BuildError as e:
            err = str(e)
        if err:
            print('INCONCLUSIVE: engine build failed: ' + err)
            results = [{'entry': u.entry, 'harness': u.harness, 'defs': {}, 'bounds': u.bounds, 'status': 'inconclusive', 'reason': err[:500], 'events': []} for u in units]
        else:
            # compile everything once, then run the units side by side
            if units:
                try:
                    build.link(units[0].harness, units[0].overrides, extra=units[0].cflags)
                except build.BuildError:
                    pass
            with ThreadPoolExecutor(P.parallel) as ex:
                results = list(ex.map(lambda u: run_unit(u, tier, exe, tmp, deadline), units))
        kf = props.known_findings(a.prop)
        for u, r in zip(units, results):
            rep = r.get('report', {})
            if a.v:
                print('  %-28s %-12s %6.1fs paths %s queries %s asserts %s' % (u.entry, r['status'], rep.get('wall_s', 0), rep.get('paths'), rep.get('queries'), rep.get('assertions_evaluated')))
            if r['status'] == 'inconclusive':
                incon.append((u.entry, r['reason']))
            for i, e in enumerate(r['events'][:3]):
                path = os.path.join(rdir, '%s-%s-%d.txt' % (a.prop, u.entry, i))
                hit = [k for k in kf if k['entry'] == u.entry and k['match'] in e['msg']]
                if u.replay:
                    try:
                        ok, text = native.replay(u.harness, u.entry, e, r['defs'], path, u.cflags)
                    except Exception as ex:  # build or run failure of the replay
                        ok, text = False, 'replay could not run: %s' % ex
                else:
                    open(path, 'w').write(json.dumps(e, indent=1)); ok, text = True, '(the counterexample is the event trace itself)'
                e['replayed'] = ok; e['replay_output'] = text[-600:]
                if not ok:
                    incon.append((u.entry, 'counterexample not reproduced by the real code: %s | %s | %s' % (e['msg'], e['where'][:300], text[-300:])))
                elif hit:
                    known.append((hit[0]['what'], path))
                else:
                    viol.append((u.entry, e['msg'], path, e))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    props.write_evidence(a.prop, P, tier, results, viol, known, incon, time.time() - t0)
    for w in sorted({k[0] for k in known}):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, w))
    for e, why in incon:
        print('INCONCLUSIVE entry=%s %s' % (e, why))
    for ent, msg, path, e in viol:
        print('counterexample in %s: %s\n  at %s\n  inputs %s' % (ent, msg, e['where'][:600], json.dumps(e['inputs'])[:800]))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
    if viol:
        return 1
    if units and not [r for r in results if r['status'] == 'ok' or r['events']]:
        print('property %s: no unit gave an answer' % a.prop)
        return 2
    print('property %s: no violation (%d units, %.1f s)' % (a.prop, len(units), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
