"""sin, cos, tan, atan2."""
from .lib import *
from se import trig as TR
from se import fmt as FM

def r_sin(c, x):
    """(lo, hi), (allowed alternative?, lo, hi), defined and continuous?"""
    l, u = c.w(x[0]), c.w(x[1]); one, m1 = c.c(1), c.c(-1)
    d = c.R('kd_s', 'N', l, u); p = c.R('par_s', 'N', l)
    return ext(c, 'sin', l, u, d, isZero(p))
def r_cos(c, x):
    l, u = c.w(x[0]), c.w(x[1])
    d = c.R('kd_c', 'N', l, u); p = c.R('par_c', 'N', u)
    return ext(c, 'cos', l, u, d, isZero(p))
def ext(c, fn, l, u, d, mxfirst):
    one, m1 = c.c(1), c.c(-1)
    lo, hi = mn(c.R(fn, 'D', l), c.R(fn, 'D', u)), mx(c.R(fn, 'U', l), c.R(fn, 'U', u))
    unb = Not(And(finite(l), finite(u)))
    d1 = z3.fpEQ(d, one); d2 = Or(unb, z3.fpGT(d, one))
    W = c.reg.R('sub', 'U', c.f, (u, l))
    alt = And(Not(unb), Or(And(isZero(d), z3.fpEQ(W, TR.piz(c.f, 'U'))), And(d1, z3.fpEQ(W, TR.piz(c.f, 'U', 2)))))
    return If(Or(d2, And(d1, Not(mxfirst))), m1, lo), If(Or(d2, And(d1, mxfirst)), one, hi), alt, m1, one, T_
def r_tan(c, x):
    l, u = c.w(x[0]), c.w(x[1])
    d = c.R('kd_t', 'N', l, u)
    unb = Not(And(finite(l), finite(u)))
    pole = Or(unb, z3.fpGT(d, c.zero))
    W = c.reg.R('sub', 'U', c.f, (u, l))
    alt = And(Not(pole), z3.fpEQ(W, TR.piz(c.f, 'U')))
    return If(pole, c.ninf, c.R('tan', 'D', l)), If(pole, c.inf, c.R('tan', 'U', u)), alt, c.ninf, c.inf, Not(pole)
FN = {'sin': r_sin, 'cos': r_cos, 'tan': r_tan}
def trig_h(fn, T, S, dec, budget=90):
    M = widest(T, S); g = 'ID' if dec else 'IV'; w = 3 if dec else 2
    ins = [('xl', S), ('xu', S)] + ([('xd', 'u8')] if dec else [])
    body = '%s<%s>(out,0,F<%s>::%s(%s<%s>(in,0)));' % ('OD' if dec else 'OV', CTY[T], CTY[T], fn, g, CTY[S])
    outs = [('rl', T), ('ru', T)] + ([('rd', 'u8')] if dec else [])
    def P(reg, i): return [isdec(i[2])] if dec else []
    def spec(reg, i, o):
        c = Ctx(reg, M); x = (i[0], i[1])
        bad = Or(Not(dvalid(*i)), isnai(*i)) if dec else F_
        e = Or(bad, Not(nonempty(*x)))
        lo, hi, alt, al, ah, ok = FN[fn](c, x)
        lo, hi = hull(reg, T, M, lo, hi); al, ah = hull(reg, T, M, al, ah)
        def d_of(lo, hi, ok):
            loc = If(Or(e, Not(ok)), D8(TRV), If(bounded(lo, hi), D8(COM), D8(DAC)))
            return If(bad, D8(ILL), decmin(i[2], loc))
        A = [And(z3.fpEQ(o[0], al), z3.fpEQ(o[1], ah))] + ([o[2] == d_of(al, ah, T_ if fn != 'tan' else F_)] if dec else [])
        A = And(Not(e), alt, *A)
        post = [(n, Or(A, p)) for n, p in out_iv(e, o[0], o[1], lo, hi)]
        if dec: post.append(('decoration', Or(A, o[2] == d_of(lo, hi, ok))))
        return post
    def vary(v, rnd):
        # one segment apart: the upper bound is the lower bound plus RD(pi), both taken in the argument format
        f = FM.FMT[S]
        l = ('num', 1, rnd.getrandbits(f.p - 1) | 1 << (f.p - 1), -f.p + rnd.choice([1, 1, 0, -1]))
        if FM.from_bits(v[0], S)[0] == 'num' and rnd.random() < .3: l = FM.from_bits(v[0], S)
        u = FM.call('add', [l, FM.call('const_pi', [], 'D', FM.FMT[M].p, FM.WIDE, False)[0]], 'D', f.p, (f.emin, f.emax))[0]
        if u[0] == 'num' and rnd.random() < .5: u = (u[0], u[1], u[2] - (1 if not u[1] else -1), u[3])
        try: v[0], v[1] = FM.to_bits(l, S), FM.to_bits(u, S)
        except ValueError: pass
        return v
    return H('%s_%s%s%s' % (fn, T, S, '_dec' if dec else ''), body, ins, outs, spec, pre=P, bound='all bit patterns of every bound', opts=dict(budget=budget, vary=vary))
# ---------------------------------------------------------------- atan2
def r_atan2(c, xs, i):
    (yl, yu), (xl, xu) = [(c.w(a), c.w(b)) for a, b in xs]; z = c.zero
    emp = And(isZero(yl), isZero(yu), isZero(xl), isZero(xu))
    pd, pu = TR.piz(c.f, 'D'), TR.piz(c.f, 'U')
    A = lambda r, y, x: c.R('atan2', r, y, x)
    cut = And(lt(yl, z), ge(yu, z), lt(xl, z))
    y0 = And(isZero(yl), isZero(yu)); ypos = ge(yl, z); yneg = le(yu, z)
    lo = If(cut, z3.fpNeg(pu), If(y0, If(gt(xu, z), z, pd), If(ypos, If(gt(xu, z), If(isZero(yl), z, A('D', yl, xu)), A('D', yu, xu)), If(yneg, If(lt(xl, z), A('D', yu, xl), A('D', yl, xl)), A('D', yl, xl)))))
    hi = If(cut, pu, If(y0, If(lt(xl, z), pu, z), If(ypos, If(lt(xl, z), If(isZero(yl), pu, A('U', yl, xl)), A('U', yu, xl)), If(yneg, If(gt(xu, z), If(isZero(yu), z, A('U', yu, xu)), A('U', yl, xu)), A('U', yu, xl)))))
    return emp, lo, hi
def d_atan2(c, xs, i):
    y, x = xs; z = zero(y[0].sort()); zx = zero(x[0].sort())
    d = Not(And(has0(y), has0(x)))
    r = Not(And(lt(y[0], z), ge(y[1], z), lt(x[0], zx)))     # restriction to the box continuous
    k = Not(And(isZero(y[0]), lt(x[0], zx)))
    return d, r, And(r, k)
defop('atan2', 2, r_atan2, d_atan2)
def trigs(tier):
    hs = []
    ts = 'df' if tier == 'quick' else 'dfl'
    for fn in FN:
        for t in ts:
            for dec in (False, True): hs.append(trig_h(fn, t, t, dec))
        for a in ('fd', 'df') if tier == 'quick' else ('fd', 'df', 'lf', 'fl', 'dl', 'ld'):
            for dec in (False, True): hs.append(trig_h(fn, a[0], a[1], dec))
    return hs
