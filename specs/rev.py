"""Reverse functions: the tightest interval around { t in x : f(t) in c }."""
from .gen import *
from se import trig as TR
from se.exec import bv
from se import fmt as F_mt
NEG = z3.fpNeg
class Br:
    """a closed branch of the inverse image: real bounds with both directed roundings"""
    def __init__(s, ex, lo, hi, open_lo=None, open_hi=None): s.ex = ex; s.lo = lo; s.hi = hi; s.olo = F_ if open_lo is None else open_lo; s.ohi = F_ if open_hi is None else open_hi
    def mirror(s): return Br(s.ex, (NEG(s.hi[1]), NEG(s.hi[0])), (NEG(s.lo[1]), NEG(s.lo[0])), s.ohi, s.olo)
    def cut(s, xl, xu, mode):
        """(nonempty?, lower, upper) of the intersection with x; mode exact / closed (limit points count) / loose (rounded bounds count)"""
        if mode == 'loose': ne = And(s.ex, le(s.lo[0], xu), le(xl, s.hi[1]))
        else:
            a, b = le(s.lo[1], xu), le(xl, s.hi[0])
            if mode == 'exact': a = And(a, Not(And(s.olo, eq(s.lo[0], xu)))); b = And(b, Not(And(s.ohi, eq(s.hi[1], xl))))
            ne = And(s.ex, a, b)
        return ne, mx(s.lo[0], xl), mn(s.hi[1], xu)
def union(parts):
    """hull of parts (nonempty?, lo, hi)"""
    ne, lo, hi = parts[0]
    for n2, l2, h2 in parts[1:]:
        lo, hi = If(And(ne, n2), mn(lo, l2), If(ne, lo, l2)), If(And(ne, n2), mx(hi, h2), If(ne, hi, h2)); ne = Or(ne, n2)
    return ne, lo, hi
def pair(c, fn, *a): return c.R(fn, 'D', *a), c.R(fn, 'U', *a)
def sel(cond, p, q): return If(cond, p[0], q[0]), If(cond, p[1], q[1])
def both0(t): return (t, t)
def b_sqr(c, C, ip):
    cl, cu = C; z = c.zero
    b = Br(ge(cu, z), sel(le(cl, z), both0(z), pair(c, 'sqrt', cl)), pair(c, 'sqrt', cu))
    return [b, b.mirror()]
def b_abs(c, C, ip):
    cl, cu = C; z = c.zero
    b = Br(ge(cu, z), both0(If(le(cl, z), z, cl)), both0(cu)); return [b, b.mirror()]
def b_cosh(c, C, ip):
    cl, cu = C; one = c.c(1)
    b = Br(ge(cu, one), sel(le(cl, one), both0(c.zero), pair(c, 'acosh', cl)), pair(c, 'acosh', cu)); return [b, b.mirror()]
def q2(c, a, b, bneg):
    """a / b with a, b bounds; zero b is the end of an interval of that sign, infinite b gives 0"""
    z = c.zero
    def f(r):
        s = c.R('div', r, a, b)
        return If(isZero(b), If(isZero(a), z, If(z3.Xor(isNeg(a), bneg), c.ninf, c.inf)), If(isInf(b), z, s))
    return f('D'), f('U')
def b_pown(c, C, ip, cls=('pos', 'm1', 'neg')):
    cl, cu = C; p = ip[0]; z = c.zero; one = c.c(1)
    k = sx(p); out = []
    ev_ = z3.Extract(0, 0, p) == 0; P = lambda n: p == z3.BitVecVal(n, 32)
    pos = p > 0
    full = (c.ninf, c.ninf), (c.inf, c.inf)
    if 'pos' in cls:
        r0 = Br(And(P(0), le(cl, one), le(one, cu)), *full)
        ev = Br(And(pos, ev_, ge(cu, z)), sel(le(cl, z), both0(z), pair(c, 'root', cl, k)), pair(c, 'root', cu, k))
        od = Br(And(pos, Not(ev_)), sel(P(1), both0(cl), pair(c, 'root', cl, k)), sel(P(1), both0(cu), pair(c, 'root', cu, k)))
        out += [r0, ev, ev.mirror(), od]
    def hyper(ex, il, iu, nl, nu):
        """branches of a decreasing pole: right of 0 for positive c, left of 0 for negative c"""
        n1 = Br(And(ex, gt(cu, z)), iu, sel(le(cl, z), both0(c.inf), il), isInf(cu))
        n2 = Br(And(ex, lt(cl, z)), sel(ge(cu, z), both0(c.ninf), nu), nl, None, isInf(cl))
        return n1, n2
    if 'm1' in cls: out += hyper(P(-1), q2(c, one, cl, F_), q2(c, one, cu, F_), q2(c, one, cl, T_), q2(c, one, cu, T_))
    if 'neg' in cls:
        neg = p < z3.BitVecVal(-1, 32); nk = z3.simplify(-k)
        il, iu = pair(c, 'invroot', cl, nk), pair(c, 'invroot', cu, nk)
        n1, n2 = hyper(neg, il, iu, il, iu)
        m = n1.mirror(); m.ex = And(m.ex, ev_); n2.ex = And(n2.ex, Not(ev_))
        out += [n1, m, n2]
    return out
def quot(c, B, C):
    """division branch for 0 not in B"""
    bl, bu = B; cl, cu = C
    qs = [q2(c, a, b, lt(bu, c.zero)) for a in C for b in B]
    lo = mn(*[q[0] for q in qs]), mn(*[q[1] for q in qs]); hi = mx(*[q[0] for q in qs]), mx(*[q[1] for q in qs])
    return lo, hi
def b_mul(c, B, C):
    """(first part, second part) of { t : b t in C for some b in B }"""
    (bl, bu), (cl, cu) = B, C; z = c.zero
    b0, c0 = And(le(bl, z), ge(bu, z)), And(le(cl, z), ge(cu, z)); bz = And(isZero(bl), isZero(bu))
    cp = gt(cl, z); lim = And(Not(c0), Or(isInf(bl), isInf(bu)))
    qlo, qhi = quot(c, B, C)
    # 0 in B, 0 not in C
    negend = (lambda: sel(cp, q2(c, cl, bl, T_), q2(c, cu, bu, F_)))()
    posend = (lambda: sel(cp, q2(c, cl, bu, F_), q2(c, cu, bl, T_)))()
    hasneg = If(cp, lt(bl, z), gt(bu, z)); haspos = If(cp, gt(bu, z), lt(bl, z))
    all_ = And(b0, c0)
    two = And(b0, Not(c0), hasneg, haspos)
    single_neg = And(b0, Not(c0), hasneg, Not(haspos)); single_pos = And(b0, Not(c0), Not(hasneg), haspos)
    ninf2, inf2 = both0(c.ninf), both0(c.inf)
    flo = sel(Or(all_, two, single_neg), ninf2, sel(single_pos, posend, qlo))
    fhi = sel(Or(all_, single_pos), inf2, sel(Or(two, single_neg), negend, qhi))
    first = Br(Or(all_, Not(b0), two, single_neg, single_pos), flo, fhi, And(lim, eq(flo[0], z)), And(lim, eq(fhi[1], z)))
    second = Br(two, posend, inf2, And(lim, eq(posend[0], z)))
    return first, second
REV = {'sqr_rev': (b_sqr, ('exact',)), 'abs_rev': (b_abs, ('exact',)), 'cosh_rev': (b_cosh, ('exact',)), 'pown_rev': (b_pown, ('exact', 'closed', 'loose')), 'mul_rev': (None, ('exact', 'closed'))}
def alternatives(fn, c, W, ip, x, cls=None):
    """admissible results (nonempty?, lo, hi) in the context's format"""
    f, modes = REV[fn]
    brs = b_mul(c, W[0], W[1]) if fn == 'mul_rev' else f(c, W[0], ip, *([cls] if cls else []))
    return [union([b.cut(x[0], x[1], m) for b in brs]) for m in modes]
NB = {'sqr_rev': 1, 'abs_rev': 1, 'cosh_rev': 1, 'pown_rev': 1, 'mul_rev': 2}
def revop(fn):
    def ref(c, xs, ip):
        ne, lo, hi = alternatives(fn, c, [(c.w(a), c.w(b)) for a, b in xs], ip, xs[-1])[0]
        return Not(ne), lo, hi
    op = Op(fn + '#', NB[fn] + 1, ref, fn=fn, ints=['i32'] if fn == 'pown_rev' else ())
    op.nodef = len(REV[fn][1]) > 1
    OPS[op.name] = op
for _f in REV: revop(_f)
def rev_h(fn, T, ts, k, ints=(), pre=None, opts=None, tag='', budget=150, lit=None, cls=None):
    M = widest(T, *ts); n = len(ts); nb = NB[fn]
    direct = k == 'iv' and n == nb + 1 and len(set(ts + (T,) if isinstance(ts, tuple) else tuple(ts) + (T,))) == 1
    op = OPS[fn + '#']
    def spec(reg, a, o):
        c = Ctx(reg, M); ops = a[:n]; ip = a[n:] if lit is None else [z3.BitVecVal(lit, 32)]
        bad = Or(*[bad_arg(k, v) for v in ops]); e = Or(bad, *[Not(nonempty(*v[:2])) for v in ops])
        W = [(c.w(v[0]), c.w(v[1])) for v in ops]
        x = W[nb] if n > nb else (c.ninf, c.inf)
        if reg.opq_called:
            em, lo, hi = opq_bare(op, reg, M, W[:nb] + [x], ip); alts = [(Not(em), lo, hi)]
        else: alts = alternatives(fn, c, W, ip, x, cls)
        ps = []
        for ne, lo, hi in alts:
            lo, hi = hull(reg, T, M, lo, hi); ps.append(out_iv(Or(e, Not(ne)), o[0], o[1], lo, hi))
        post = ps[0] if len(ps) == 1 else [('bounds', Or(*[And(*[p for _, p in q]) for q in ps]))]
        if k == 'dv': post.append(('decoration', o[2] == If(bad, D8(ILL), D8(TRV))))
        return post
    opts = dict(dict(lattice=True, budget=budget), **(opts or {}))
    if not direct: opts['summaries'] = [(op.name, M, False)]
    nm = '%s_%s_%s_%s%s' % (fn, T, ''.join(ts), k, tag)
    args = [(k, t) for t in ts] + list(ints)
    return fh(nm, T, args, (k, T), 'FT::%s(%s)' % (fn, ','.join(['{%d}' % i for i in range(len(args))] + ([str(lit) if lit != MIN else '(-2147483647 - 1)'] if lit is not None else []))), spec, pre=pre, opts=opts)
def to_pair_h(T, ts, k):
    M = widest(T, *ts)
    def spec(reg, a, o):
        c = Ctx(reg, M)
        bad = Or(*[bad_arg(k, v) for v in a]); e = Or(bad, *[Not(nonempty(*v[:2])) for v in a])
        B, C = [(c.w(v[0]), c.w(v[1])) for v in a]
        brs = b_mul(c, B, C); post = []; off = 0
        for lab, b in zip(('first', 'second'), brs):
            lo, hi = hull(reg, T, M, b.lo[0], b.hi[1]); em = Or(e, Not(b.ex))
            post += out_iv(em, o[off], o[off + 1], lo, hi, lab + ' ')
            if k == 'dv':
                if lab == 'first': d = decmin(a[0][2], a[1][2], If(Or(em, has0(B)), D8(TRV), If(bounded(lo, hi), D8(COM), D8(DAC))))
                else: d = D8(TRV)
                post.append((lab + ' decoration', o[off + 2] == If(bad, D8(ILL), d))); off += 3
            else: off += 2
        return post
    return fh('mul_rev_to_pair_%s_%s_%s' % (T, ''.join(ts), k), T, [(k, t) for t in ts], (k + 'p'.replace('iv', ''), T), 'FT::mul_rev_to_pair({0},{1})', spec)
def even(p): return z3.Extract(0, 0, p) == 0
MIN = -(1 << 31)
POWN = [('_even', lambda reg, a: [a[-1] >= 0, even(a[-1])], ('pos',)), ('_odd', lambda reg, a: [a[-1] >= 0, Not(even(a[-1]))], ('pos',))]
NPOWN = [('_neven', lambda reg, a: [a[-1] < -1, a[-1] != MIN, even(a[-1])]), ('_nodd', lambda reg, a: [a[-1] < -1, Not(even(a[-1]))])]
# the end point helpers of reverse powers: x := c^(1/p) rounded outward, return the sign of x - c^(1/p)
def h_end(fn, T, part, lit):
    up = fn == 'pown_rev_sup'
    body = '{ typedef typename F<%s>::mpfr_var V; V::setup(); V c(I(%s,0), MPFR_RND%s); V x; int t = F<%s>::%s(c, x, I(int,1)); O(%s,0) = x.template get<%s>(MPFR_RNDD); O(%s,1) = x.template get<%s>(MPFR_RNDU); O(int,2) = t < 0 ? -1 : t > 0 ? 1 : 0; }'
    ct = CTY[T]; body = body.replace('typename ', '').replace('template ', '') % (ct, ct, 'D' if up else 'U', ct, fn, ct, ct, ct, ct)
    def pre(reg, i):
        c, p = i; z = zero(c.sort())
        return [Not(isNaN(c)), Or(Not(isZero(c)), z3.fpIsPositive(c)), Or(Not(even(p)), ge(c, z))] + \
            ([p == z3.BitVecVal(MIN, 32)] if lit else [p < -1, p != MIN, ge(c, z) if part == 'p' else lt(c, z)])
    def spec(reg, i, o):
        v, t = end_value(reg, T, up, *i)
        return [('low', eq(o[0], v)), ('high', eq(o[1], v)), ('sign', o[2] == t)]
    ins = [('c', T), ('p', 'i32')]
    if lit: body = body.replace('I(int,1)', '(-2147483647 - 1)')
    return H('%s_%s_%s' % (fn, T, part), body, ins, [('rd', T), ('ru', T), ('t', 'i32')], spec, pre=pre, bound='all bit patterns of the bound; exponents %s' % ('INT_MIN' if lit else 'below -1'),
             opts=dict(contract=True, optional=True, budget=150, group='pownrev' + T, cflags=('-fno-access-control',)), note='contract of an internal helper, used where it is proved')
def end_value(reg, T, up, c, p):
    k = z3.simplify(-sx(p)); d, u = [reg.R('invroot', r, T, (c, k)) for r in 'DU']
    v = If(isZero(c), num(float('inf'), c.sort()), u if up else d)
    return v, If(Or(isZero(c), isInf(c), eq(d, u)), z3.BitVecVal(0, 32), z3.BitVecVal(1 if up else 0xffffffff, 32))
def s_end(fn, T):
    import re as _re
    up = fn == 'pown_rev_sup'
    def install(m, ext, summ):
        from se import mpfr as M, summary as SM
        rx = _re.compile(_re.escape('p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<%s>::%s(' % (CTY[T], fn)))
        for dn, sy in SM.demap(m).items():
            if not rx.match(dn): continue
            def g(e, a, sy=sy):
                c = M.get_x(e, a[0]) if not isinstance(M.var(e, a[0]).v, M.ConstPending) else M.var(e, a[0]).v.t
                p = bv(a[2], 32); f = FMT[T]
                if c.sort() != f.sort or not e.decide(And(p < -1, Not(isNaN(c)), Or(Not(isZero(c)), z3.fpIsPositive(c)), Or(Not(even(p)), ge(c, zero(c.sort()))))): raise Unsupported('helper called outside its contract')
                e.funcs_seen[sy] = e.funcs_seen.get(sy, 0) + 1
                v, t = end_value(e.reg, T, up, c, p)
                M.setv(e, a[1], z3.simplify(v)); return t
            ext[sy] = g; summ.append(sy)
    return install
def npown_hs(T, ts, k):
    out = []; parts = {}
    for fn in ('pown_rev_sup', 'pown_rev_inf'):
        for part in 'pn': parts[fn, part] = h_end(fn, T, part, False)
        parts[fn, 'min'] = h_end(fn, T, 'min', True)
    def helpers(ps):
        # a helper is summarised when all the parts of its contract that the caller needs are proved
        l = []
        for fn in ('pown_rev_sup', 'pown_rev_inf'):
            ok = []
            for i, q in enumerate(ps):
                last = i == len(ps) - 1
                def inst(m, ext, summ, fn=fn, ok=ok, last=last):
                    ok.append(1)
                    if last and len(ok) == len(ps): s_end(fn, T)(m, ext, summ)
                l.append((parts[fn, q], inst))
        return l
    def from_helper(hh, raw):
        c, p = raw; inf = lambda s: F_mt.to_bits(('inf', s), T)
        if T != ts[0] or len(ts) != 2: return []
        q = [p] if 'min' not in hh.name else []
        return [[c, c, inf(1), inf(0)] + q]
    o = dict(from_helper=from_helper, group='pownrev' + T, cflags=('-fno-access-control',))
    for tag, pp in NPOWN: out.append(rev_h('pown_rev', T, ts, k, ints=['i32'], pre=pp, tag=tag, budget=250, cls=('neg',), opts=dict(o, helpers=helpers('p' if 'even' in tag else 'pn'))))
    out.append(rev_h('pown_rev', T, ts, k, lit=MIN, tag='_min', budget=250, cls=('neg',), opts=dict(o, helpers=helpers(['min']))))
    return list(parts.values()) + out
def revs(tier):
    hs = []
    q = tier == 'quick'
    for k in ('iv', 'dv'):
        for fn in ('sqr_rev', 'abs_rev', 'cosh_rev'):
            for cb in ['d:d', 'd:dd', 'f:f', 'f:ff', 'd:fd', 'f:dd', 'f:d'] + ([] if q else ['l:l', 'l:ll', 'd:ld', 'f:l', 'l:f', 'd:df', 'f:fd', 'd:ff']):
                T, ts = cb.split(':'); hs.append(rev_h(fn, T, ts, k))
        for cb in ['d:d', 'd:dd', 'f:ff', 'f:dd', 'd:f'] + ([] if q else ['l:l', 'l:ll', 'd:ld', 'f:l', 'l:f', 'd:df', 'f:fd', 'd:ff']):
            T, ts = cb.split(':')
            if k == 'iv' and ts == T + T:
                for tag, pp, cls in POWN: hs.append(rev_h('pown_rev', T, ts, k, ints=['i32'], pre=pp, tag=tag, budget=250, cls=cls))
                hs.append(rev_h('pown_rev', T, ts, k, lit=-1, tag='_m1', budget=250, cls=('m1',)))
                hs += npown_hs(T, ts, k)
            else: hs.append(rev_h('pown_rev', T, ts, k, ints=['i32']))
    return hs
def muls(tier):
    hs = []
    q = tier == 'quick'
    for k in ('iv', 'dv'):
        for cb in ['d:dd', 'd:ddd', 'f:ff', 'f:fff', 'f:dfd', 'd:fd'] + ([] if q else ['l:ll', 'l:lll', 'd:ldf', 'f:ll', 'l:fd', 'd:ddf', 'f:ddd']):
            T, ts = cb.split(':'); hs.append(rev_h('mul_rev', T, ts, k))
        for cb in ['d:dd', 'f:ff', 'f:dd', 'd:fd'] + ([] if q else ['l:ll', 'd:ld', 'f:ld', 'l:df']):
            T, ts = cb.split(':'); hs.append(to_pair_h(T, ts, k))
    return hs
