"""Error-free sum, reductions, decorations."""
from .gen import *
UTIL = '#include "p1788/util/mpfr_util.hpp"\n'
def two_sums(tier):
    """nearest sum and its exact error; the error is specified by Knuth's six-operation expansion, which is exact whenever the sum is finite"""
    hs = []
    for T in 'dfl':
        ct = CTY[T]; f = FMT[T]
        def spec(reg, i, o, f=f):
            a, b = i
            R = lambda x, y: reg.R('add', 'N', f, (x, y))
            n = lambda x: reg.simp(z3.fpNeg(x))
            s = R(a, b); ad = R(s, n(b)); bd = R(s, n(ad)); e = R(R(a, n(ad)), R(b, n(bd)))
            same = lambda x, y: Or(And(isNaN(x), isNaN(y)), z3.fpEQ(x, y))
            return [('sum', same(o[0], s)), ('error', Implies(finite(s), same(o[1], e)))]
        h = H('two_sum_' + T, '{ std::pair<%s,%s> r = p1788::util::two_sum<%s>(I(%s,0), I(%s,1)); O(%s,0) = r.first; O(%s,1) = r.second; }' % ((ct,) * 7),
              [('a', T), ('b', T)], [('s', T), ('e', T)], spec, bound='all %s bit patterns of both operands' % ct, note="Knuth's theorem supplies that the six-operation expansion is the exact error")
        h.prelude = UTIL
        hs.append(h)
    return hs
# ---------------------------------------------------------------- reductions
def redspec(f, terms):
    from se.mpfr import xsum
    def val(reg, r, i):
        ts = terms(reg, i)
        if not ts: return zero(f.sort)
        fn, args = xsum(ts)
        return reg.R(fn, r, f, args)
    def spec(reg, i, o):
        m = i[-1]; v = None
        for k, r in ((0, 'N'), (1, 'Z'), (2, 'U'), (3, 'D')):
            if r == 'N': v = val(reg, 'N', i)
            else: v = If(m == k, val(reg, r, i), v)
        return [('value', Or(And(isNaN(o[0]), isNaN(v)), z3.fpEQ(o[0], v))), ('sign of zero', Implies(isZero(o[0]), isNeg(o[0]) == (m == 3)))]
    return spec
def cancelling(T, n, two):
    """adversarial replay inputs for undecided paths: nearly cancelling terms and extreme exponents"""
    from se import fmt as F
    import struct
    f = FMT[T]
    def enc(s, m, e):
        try: return F.to_bits(F.call('set', [('num', s, m, e)], 'N', f.p, (f.emin, f.emax))[0], T)
        except Exception: return 0
    def vary(v, rnd):
        k = rnd.randrange(3); e = rnd.choice([0, 0, f.emax // 2 - f.p, f.emax - f.p - 1, f.emin // 2, -f.p])
        big = lambda: rnd.getrandbits(f.p) | 1 | 1 << (f.p - 1)
        nv = 2 * n if two else n
        for j in range(nv): v[j] = enc(rnd.getrandbits(1), big(), e + rnd.choice([0, 0, 0, -1, -f.p]))
        if n > 1 and k:
            m, q = big(), big(); v[0] = enc(0, m, e); v[1] = enc(1, m ^ rnd.choice([0, 2, 4]), e)
            if two: v[n] = enc(0, q, 1 - f.p); v[n + 1] = enc(0, q ^ rnd.choice([0, 2, 6]), 1 - f.p)
        return v
    return vary
def reductions(tier):
    hs = []
    ts = 'dfl'
    nmax = 3 if tier == 'quick' else 5
    for T in ts:
        ct = CTY[T]; f = FMT[T]
        for op in ('sum', 'sum_abs', 'sum_sqr', 'dot'):
            for n in range(0, nmax + 1):
                two = op == 'dot'; nv = 2 * n if two else n
                def terms(reg, i, op=op, n=n):
                    a = i[:n]
                    if op == 'sum': return [(x,) for x in a]
                    if op == 'sum_abs': return [(reg.simp(z3.fpAbs(x)),) for x in a]
                    if op == 'sum_sqr': return [(x, x) for x in a]
                    return [(a[k], i[n + k]) for k in range(n)]
                for form in ('it', 'il'):
                    if form == 'il' and (n not in (0, 2) or T == 'l' and tier == 'quick'): continue
                    L = lambda o: 'std::initializer_list<%s>{%s}' % (ct, ','.join('I(%s,%d)' % (ct, o + k) for k in range(n)))
                    if form == 'il': call = 'p1788::reduction::%s<%s>(%s, rnd)' % (op, ct, L(0) + (',' + L(n) if two else ''))
                    else: call = 'p1788::reduction::%s((const %s*)a, (const %s*)a + %d%s, rnd)' % (op, ct, ct, n, ', (const %s*)b' % ct if two else '')
                    body = '%s a[%d]; %s b[%d]; ' % (ct, n + 1, ct, n + 1) + ' '.join('a[%d] = I(%s,%d);' % (k, ct, k) for k in range(n)) + (' '.join('b[%d] = I(%s,%d);' % (k, ct, n + k) for k in range(n)) if two else '')
                    body += ' auto rnd = (p1788::reduction::rnd_mode)I(int,%d); O(%s,0) = %s;' % (nv, ct, call)
                    hs.append(H('%s%d_%s_%s' % (op, n, T, form), body, [('v%d' % k, T) for k in range(nv)] + [('rnd', 'i32')], [('r', T)], redspec(f, terms),
                        pre=lambda reg, i: [i[-1] >= 0, i[-1] <= 3], bound='%d terms, all %s bit patterns of every element, all four rounding modes' % (n, ct), opts=dict(vary=cancelling(T, n, two), budget=60)))
    return hs
