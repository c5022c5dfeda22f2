#!/usr/bin/env python3
"""mutate.py FILEREGEX N [seed] [func=regex]: random single mutants of the implementation files, each judged by the checks of the function it sits in.
A development aid: prints the mutants no check reports; they are either equivalent or missed."""
import sys, os, re, random, subprocess, shutil, json, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SBD = '/repo/p1788/flavor/infsup/setbased/'
PROP = {}
def P(p, names):
    for n in names.split(): PROP.setdefault(n, []).append(p)
P('C05', 'pos neg add sub mul div recip sqr sqrt fma'); P('C06', 'pown pow'); P('C07', 'exp exp2 exp10 log log2 log10'); P('C08', 'sin cos tan asin acos atan atan2'); P('C09', 'sinh cosh tanh asinh acosh atanh')
P('C10', 'sign ceil floor trunc round_ties_to_even round_ties_to_away abs min max'); P('C02', 'is_empty is_entire is_common_interval is_singleton is_member is_equal subset less precedes is_interior interior strictly_less strictly_precedes are_disjoint disjoint'); P('C03', 'overlap'); P('C04', 'intersection convex_hull')
P('C11', 'inf sup mid rad wid mag mig mid_rad'); P('C12', 'cancel_minus cancel_plus two_sum'); P('C13', 'sqr_rev abs_rev cosh_rev pown_rev'); P('C15', 'mul_rev mul_rev_to_pair')
P('C01', 'nums_to_interval nums_to_decorated_interval nums_dec_to_decorated_interval interval_to_decorated_interval set_dec interval_part empty entire empty_dec entire_dec nai new_dec bare_dec_to_decorated_interval convert_hull convert_rndd convert_rndu convert_rndn is_valid is_nai')
SWAPS = [('MPFR_RNDU', 'MPFR_RNDD'), ('MPFR_RNDD', 'MPFR_RNDU'), (' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '), ('.first', '.second'), ('.second', '.first'),
 ('xl()', 'xu()'), ('xu()', 'xl()'), ('yl()', 'yu()'), ('yu()', 'yl()'), ('decoration::dac', 'decoration::def'), ('decoration::dac', 'decoration::com'), ('decoration::com', 'decoration::dac'), ('decoration::trv', 'decoration::def'), ('decoration::def', 'decoration::dac'),
 ('0.0', '1.0'), ('-1.0', '0.0'), (' 1.0', ' 2.0'), ('std::min', 'std::max'), ('std::max', 'std::min'), ('return false', 'return true'), ('return true', 'return false'), (' - ', ' + '), (' + ', ' - '), ('floor', 'ceil'), ('ceil', 'trunc'), (' 0', ' 1'), (' 1)', ' 2)'), ('-infinity', 'infinity'), ('-std::numeric_limits', 'std::numeric_limits'),
 ('x.', 'y.'), ('y.', 'x.'), ('empty()', 'entire()'), ('setup()', 'get_str'), ('l.subnormalize(', '('), ('u.subnormalize(', '('), ('(!', '('), ('if (', 'if (!'), ('infinity()', 'max()'), ('convert_hull(x)', 'x'), ('T_MAX', 'T'), ('<T_>', '<T>')]
def regions(txt):
    """(start, end, function name) of top-level function definitions"""
    out = []
    for m in re.finditer(r'^mpfr_bin_ieee754_flavor<T>::(\w+)\(|^\S.*mpfr_bin_ieee754_flavor<T>::(\w+)\(|^(\w+)\([^;]*$', txt, re.M):
        i = txt.find('\n{', m.start())
        if i < 0: continue
        j = txt.find('\n}', i)
        out.append((i, j, m.group(1) or m.group(2) or m.group(3)))
    return out
def strip(txt): return re.sub(r'//[^\n]*', lambda m: ' ' * len(m.group(0)), txt)
def main():
    frx, n = sys.argv[1], int(sys.argv[2]); seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1; fr = [a[5:] for a in sys.argv if a.startswith('func=')]
    muts = []
    for f in sorted(os.listdir(SBD)):
        if not re.search(frx, f) or not f.endswith('_impl.hpp'): continue
        txt = open(SBD + f).read(); code = strip(txt)
        for a, b, name in regions(code):
            if name not in PROP or (fr and not re.search(fr[0], name)): continue
            for old, new in SWAPS:
                for m in re.finditer(re.escape(old), code[a:b]): muts.append((f, a + m.start(), old, new, name))
    random.Random(seed).shuffle(muts)
    def one(m):
        f, p, old, new, name = m
        d = tempfile.mkdtemp(prefix='mut_', dir='/tmp'); 
        try:
            shutil.copytree('/repo/p1788', d + '/p1788'); shutil.copytree('/repo/test', d + '/test') if 0 else None
            q = d + '/p1788/flavor/infsup/setbased/' + f; t = open(q).read(); t = t[:p] + new + t[p + len(old):]; open(q, 'w').write(t)
            line = t[:p].count('\n') + 1
            res = []
            for pr in PROP[name]:
                nm = {'nums_to_interval': 'nums_', 'is_equal': 'equal', 'is_interior': 'interior', 'are_disjoint': 'disjoint'}.get(name, name)
                only = [] if pr in ('C01', 'C12', 'C03', 'C04') else ['only=%s_' % nm]
                r = subprocess.run(['python3-vt', V + '/check.py', pr, 'quick'] + only, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_EVID=d, VERIF_LIMIT='700'))
                res.append((pr, r.returncode, [l for l in (r.stdout + r.stderr).split('\n') if l.strip()][-3:]))
            return m, line, res
        finally: shutil.rmtree(d)
    cnt = {'caught': 0, 'nocompile': 0, 'missed': 0}
    with ThreadPoolExecutor(int(os.environ.get('MUT_J', '2'))) as ex:
        for m, line, res in ex.map(one, muts[:n]):
            k = 'caught' if any(r[1] == 1 for r in res) else 'nocompile' if any(r[1] == 2 for r in res) else 'missed'
            cnt[k] += 1
            if k == 'missed': print('MISSED %s:%d %s  %r -> %r  | %s\n     %s' % (m[0][23:], line, m[4], m[2], m[3], res[0][2][-1:], open(SBD + m[0]).read().split('\n')[line - 1].strip())); sys.stdout.flush()
    print(len(muts), cnt)
main()
