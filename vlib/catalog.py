#!/usr/bin/env python3
"""The property catalogue: writes properties.jsonl and MANIFEST.json."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, note=None, state=None, technique='symbolic execution of the LLVM IR of the real functions, every branch and assertion decided by Z3', na=None):
    assert len(title) <= 80, title
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    P.append((d, technique, note))
    if na:
        NA.append({'property': id, 'reason': na})


S = 'src/electionguard/'
GENERIC = ('Holds for every value of the symbolic inputs inside the bounds written in evidence/<id>.json; trusted: clang 18 and the IR semantics of engine/egsym.cpp, Z3, the models of libstdc++/libc in rt/. ')
LAYER_C = GENERIC + 'Group elements are exact terms over F_q in the exponent (random elements generic), SHA-256/HMAC injective uninterpreted functions; the arithmetic underneath is decided by C01-C04.'

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'catalog_text.py')).read())


def main():
    ids = [d['id'] for d, _, _ in P]
    assert len(ids) == len(set(ids))
    order = sorted(range(len(P)), key=lambda i: ids[i])
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for i in order:
            f.write(json.dumps(P[i][0]) + '\n')
    na = {n['property'] for n in NA}
    m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile /repo\'s sources as they are', 'source_commits': []},
         'checks': [{'property': P[i][0]['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % P[i][0]['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % P[i][0]['id'],
                     'technique': P[i][1], 'level': 'model_checking', 'level_note': P[i][2] or LAYER_C} for i in order if P[i][0]['id'] not in na],
         'not_applicable': NA, 'notes': 'See DESIGN.md. known_findings.json lists defects that were repaired or are recorded.'}
    json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
    design(order)
    print(len(P), 'properties', len(m['checks']), 'checks')


def design(order):
    """Fills in section 2 of DESIGN.md."""
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import props
    path = os.path.join(VERIF, 'DESIGN.md')
    text = open(path).read()
    begin, end = '<!-- begin generated -->', '<!-- end generated -->'
    out = []
    for i in order:
        d, _, note = P[i]
        u = props.PROPS[d['id']].units
        out.append('### %s %s\n*Quantified over* %s. *Beyond tests:* %s\n' % (d['id'], d['title'], d['quantifier']['text'], d['why_tests_cant']))
        for x in u:
            ov = [o.split('.')[0] for o in x.overrides]
            out.append('* `%s:%s` [%s] - %s' % (x.harness, x.entry, ', '.join(ov) or 'no override', x.bounds))
        out.append('\n*Assumptions:* %s\n' % ('layer C (section 1); ' if not note else note))
    a, rest = text.split(begin)
    open(path, 'w').write(a + begin + '\n' + '\n'.join(out) + '\n' + end + rest.split(end)[1])


if __name__ == '__main__':
    main()
