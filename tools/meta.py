#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'p1788/flavor/infsup/setbased/'; P = D + 'mpfr_bin_ieee754_flavor_'
EL = P + 'elem_func_impl.hpp'; REV = P + 'rev_func_impl.hpp'; CLS = P + 'class_impl.hpp'; NUM = P + 'num_func_impl.hpp'; BOOL = P + 'bool_func_impl.hpp'
VAL = P + 'validation_func_impl.hpp'; UT = P + 'util_func_impl.hpp'; IO = P + 'io_impl.hpp'; MV = 'p1788/util/mpfr_var.hpp'; MVI = 'p1788/util/mpfr_var_impl.hpp'
TRUST = ('Trusted: the MPFR contract as modelled in se/mpfr.py, the facts about real functions in se/apps.py (monotonicity, sign, NaN/infinity conventions, libmpfr values at anchor points), clang -O1 as the lowering, z3. '
         'Every counterexample is replayed on a g++ build of /repo before it is reported; undecided harnesses are listed in the evidence and are not counted as proved.')
ALLIN = 'every bit pattern of every bound (finite, subnormal, zero, infinite, NaN, inverted) and every decoration'
PR = []
def p(id, title, statement, text, why, files, mech, state=None, observe=None, over=('inputs',), na=None, note='', tech=None, level='model_checking'):
    PR.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, state=state or [], observe=observe or [], over=list(over), na=na, note=note, tech=tech, level=level))
exec(open(os.path.join(V, 'tools', 'table.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for q in PR:
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(dict(id=q['id'], title=q['title'], statement=q['statement'], quantifier=dict(over=q['over'], text=q['text']), why_tests_cant=q['why'],
            anchors=dict(files=q['files'], state=q['state'], mechanism=[dict(name=n, where=w) for n, w in q['mech']], observe_at=q['observe'], hook_needed=None))) + '\n')
m = dict(version=1, setup_cmd='python3-vt tools/selftest.py', checks=[], not_applicable=[],
         notes='No hooks: /repo is analysed unmodified. python3-vt (z3), clang++ 18, g++ and libmpfr are the only requirements. Every check compiles its harnesses against /repo on each run.')
for q in PR:
    if q['na']: m['not_applicable'].append(dict(property=q['id'], reason=q['na']))
    else:
        m['checks'].append(dict(property=q['id'], quick_cmd='python3-vt check.py %s quick' % q['id'], thorough_cmd='python3-vt check.py %s thorough' % q['id'], evidence_file='evidence/%s.json' % q['id'],
            technique=q['tech'] or 'symbolic execution of the LLVM IR of the real code, SMT (z3) decision per path, counterexamples replayed natively', level=q['level'], level_note=(q['note'] + ' ' if q['note'] else '') + TRUST))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sc = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(V, 'properties.jsonl')): jsonschema.validate(json.loads(l), sc)
except ImportError: pass
