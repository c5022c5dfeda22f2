"""Facts about the trigonometric functions as solver variables.

sin, cos, tan      correctly rounded values
par_s(x)           floor(x/pi + 1/2) mod 2: 0 where cos > 0, 1 where cos < 0 (segments on which sin is monotone)
par_c(x)           floor(x/pi) mod 2: 0 where sin > 0 (segments on which cos is monotone)
kd_s(l, u), kd_c   number of segment ends between l and u (0, 1, 2, or 3 for three and more): extrema of sin / cos; poles of tan for kd_s
kd_t               kd_s together with the values of tan
All of them are evaluated exactly at the points a solver model proposes (fmt.eval_ieee)."""
import z3
from fractions import Fraction
from . import fmt as F
from . import apps as A
from .apps import And, Or, Not, Implies, isNaN, isInf, isZero, isNeg, isPos, lt, le, gt, ge, eq, zero, num, absx, finite

KB = 17200
_pi = None
def pi_int():
    """floor(pi * 2^KB)"""
    global _pi
    if _pi is None:
        v = F.MP(KB + 64)
        L = F.lib(); F.setrange(*F.WIDE)
        import ctypes
        L.mpfr_const_pi.argtypes = [ctypes.c_void_p, ctypes.c_int]
        L.mpfr_const_pi(v.p, 3); _, s, m, e = v.get()
        sh = e + KB
        _pi = m << sh if sh >= 0 else m >> -sh
    return _pi
def seg(v, half):
    """floor(x/pi + half/2) of a python number"""
    if v[0] == 'zero': return 0
    x = F.frac(v); P = pi_int()
    n = (2 * x.numerator << KB) + half * P * x.denominator; d = 2 * P * x.denominator
    return n // d
def numv(k): return ('zero', 0) if k == 0 else ('num', 0, k, 0)
def evalt(fn, args):
    if any(a[0] in ('nan', 'inf') for a in args): return F.NAN
    half = 0 if fn in ('par_c', 'kd_c') else 1
    if fn.startswith('par'): return numv(seg(args[0], half) % 2)
    return numv(max(0, min(3, seg(args[1], half) - seg(args[0], half))))
NAMES = ('par_s', 'par_c', 'kd_s', 'kd_c', 'kd_t')
def pis(f):
    P = F.call('const_pi', [], 'D', f.p, F.WIDE, False)[0], F.call('const_pi', [], 'U', f.p, F.WIDE, False)[0]
    return P
def piz(f, r, k=1):
    v = F.call('const_pi', [], r, f.p, F.WIDE, False)[0]
    v = (v[0], v[1], v[2] * k, v[3])
    return F.bits_to_z3(F.to_bits(v, f.n), f.n)
def gap_ok(f):
    """pi - RD(pi) >= 2^-p: tan(l) and tan(u) one pole apart at distance <= RD(pi) are separated by a number of the format"""
    d = Fraction(pi_int(), 1 << KB) - F.frac(F.call('const_pi', [], 'D', f.p, F.WIDE, False)[0])
    return d >= Fraction(1, 1 << f.p)

class Base:
    def touch(s, reg, a): pass
    def rel(s, reg, a, b): return []
def eqargs(a, b): return And(*[eq(x, y) for x, y in zip(a.args, b.args)])
def cong(a, b, extra=True):
    cs = [z3.fpEQ(a.res[r], b.res[r]) for r in a.res if r in b.res]
    if not cs: return []
    return [Implies(And(eqargs(a, b), extra), And(*cs))]
class SinCos(Base):
    def __init__(s, fn): s.fn = fn; s.par = 'par_c' if fn == 'sin' else 'par_s'
    def touch(s, reg, a): reg.R(s.par, 'N', a.f, a.args)
    def single(s, reg, a):
        x, = a.args; S = a.f.sort; out = []; z = zero(S); one = num(1.0, S); fin = finite(x)
        out.append(isNaN(next(iter(a.res.values()))) == Not(fin))
        p = reg.R(s.par, 'N', a.f, a.args); pos = isZero(p)
        tiny = F.bits_to_z3(F.to_bits(('num', 0, 1, a.f.emin - 1), a.f.n), a.f.n)
        for r, t in a.res.items():
            out.append(Implies(fin, And(z3.fpLEQ(z3.fpNeg(one), t), z3.fpLEQ(t, one))))
            if s.fn == 'cos':
                out.append(Implies(And(fin, pos), z3.fpGT(t, z))); out.append(Implies(And(fin, Not(pos)), z3.fpLT(t, z)))
                out.append(Implies(isZero(x), z3.fpEQ(t, one)))
                if r == 'U': out.append(Implies(And(fin, le(absx(x), tiny)), z3.fpEQ(t, one)))
            else:
                out.append(Implies(isZero(x), isZero(t)))
                nz = And(fin, Not(isZero(x)))
                big = gt(absx(x), tiny)
                out.append(Implies(And(nz, pos), z3.fpGT(t, z) if r == 'U' else z3.fpGEQ(t, z)))
                out.append(Implies(And(nz, Not(pos)), z3.fpLT(t, z) if r == 'D' else z3.fpLEQ(t, z)))
                out.append(Implies(And(nz, big, pos), z3.fpGT(t, z))); out.append(Implies(And(nz, big, Not(pos)), z3.fpLT(t, z)))
                if r == 'D': out.append(Implies(eq(x, tiny), isZero(t)))
                if r == 'U': out.append(Implies(eq(x, z3.simplify(z3.fpNeg(tiny))), isZero(t)))
        return out
    def rel(s, reg, a, b): return cong(a, b)
class Tan(Base):
    def single(s, reg, a):
        x, = a.args; fin = finite(x)
        out = [isNaN(next(iter(a.res.values()))) == Not(fin)]
        for r, t in a.res.items():
            out.append(Implies(fin, finite(t))); out.append(Implies(isZero(x), isZero(t)))
        return out
    def rel(s, reg, a, b): return cong(a, b)
class Par(Base):
    def __init__(s, c): s.c = c
    def single(s, reg, a):
        x, = a.args; p = a.res['N']; S = a.f.sort; one = num(1.0, S); n = lambda v: num(v, x.sort())
        out = [isNaN(p) == Not(finite(x)), Implies(finite(x), Or(isZero(p), z3.fpEQ(p, one)))]
        if s.c:
            out.append(Implies(And(le(n(0.0), x), le(x, n(3.0))), isZero(p))); out.append(Implies(And(le(n(-3.0), x), lt(x, n(0.0))), z3.fpEQ(p, one)))
        else: out.append(Implies(le(absx(x), n(1.5)), isZero(p)))
        return out
    def rel(s, reg, a, b): return cong(a, b)
class KD(Base):
    def __init__(s, fn): s.fn = fn; s.par = 'par_c' if fn == 'kd_c' else 'par_s'
    def touch(s, reg, a):
        l, u = a.args
        for x in (l, u): reg.R(s.par, 'N', a.f, (x,))
        reg.R('sub', 'U', a.f, (u, l))
        if s.fn == 'kd_t':
            for x in (l, u):
                for r in 'DU': reg.R('tan', r, a.f, (x,))
    def single(s, reg, a):
        l, u = a.args; d = a.res['N']; f = a.f; S = f.sort; c = lambda v: num(float(v), S)
        fin = And(finite(l), finite(u), le(l, u)); out = []
        is_ = [z3.fpEQ(d, c(k)) for k in range(4)]
        out.append(Implies(fin, Or(*is_)))
        p, q = [reg.R(s.par, 'N', f, (x,)) for x in (l, u)]
        same = z3.fpEQ(p, q)
        out.append(Implies(And(fin, Or(is_[0], is_[2])), same)); out.append(Implies(And(fin, is_[1]), Not(same)))
        W = reg.R('sub', 'U', f, (u, l))
        pd, pu, pu2 = piz(f, 'D'), piz(f, 'U'), piz(f, 'U', 2)
        le_, ge_ = z3.fpLEQ, z3.fpGEQ
        out.append(Implies(And(fin, is_[0]), le_(W, pu))); out.append(Implies(And(fin, z3.fpLEQ(d, c(1))), le_(W, pu2)))
        out.append(Implies(And(fin, z3.fpGEQ(d, c(2))), ge_(W, pu))); out.append(Implies(And(fin, is_[3]), ge_(W, pu2)))
        out.append(Implies(And(fin, eq(l, u)), is_[0]))
        if s.fn == 'kd_c':
            # next to a segment end at zero one further end already needs a width of pi
            tiny = F.bits_to_z3(F.to_bits(('num', 0, 1, f.emin - 1), f.n), f.n); nt = z3.simplify(z3.fpNeg(tiny))
            cl = And(ge(l, zero(l.sort())), le(l, tiny)); cu = And(le(u, zero(u.sort())), ge(u, nt))
            out.append(Implies(And(fin, cl, z3.fpGEQ(d, c(1))), ge_(W, pu)))
            out.append(Implies(And(fin, ge(u, nt), lt(u, zero(u.sort())), z3.fpGEQ(d, c(1))), ge_(W, pu)))
            out.append(Implies(And(fin, cl, z3.fpGEQ(d, c(2))), ge_(W, pu2)))
            # an interval ending in 0 crosses one more end than one ending just below it
            out.append(Implies(And(fin, isZero(u), z3.fpGEQ(d, c(2))), ge_(W, pu)))
            out.append(Implies(And(fin, isZero(u), lt(l, u), z3.fpLEQ(d, c(1))), le_(W, pu)))
            out.append(Implies(And(fin, isZero(u), lt(l, u)), Not(is_[0])))
        if s.fn == 'kd_t':
            T = {(i, r): reg.R('tan', r, f, (x,)) for i, x in enumerate((l, u)) for r in 'DU'}
            m = And(fin, is_[0])
            out.append(Implies(And(m, lt(l, u)), And(le_(T[0, 'D'], T[1, 'D']), le_(T[0, 'U'], T[1, 'U']), z3.fpLT(T[0, 'D'], T[1, 'U']))))
            g = And(fin, is_[1], le_(W, pd))
            out.append(Implies(g, And(ge_(T[0, 'D'], T[1, 'D']), ge_(T[0, 'U'], T[1, 'U']))))
            if gap_ok(f): out.append(Implies(g, ge_(T[0, 'D'], T[1, 'U'])))
        return out
    def rel(s, reg, a, b): return cong(a, b)
class Atan2(Base):
    def single(s, reg, a):
        y, x = a.args; S = a.f.sort; out = []; z = zero(S)
        out.append(isNaN(next(iter(a.res.values()))) == Or(isNaN(y), isNaN(x)))
        ok = Not(Or(isNaN(y), isNaN(x)))
        pu = piz(a.f, 'U')
        for r, t in a.res.items():
            out.append(Implies(ok, And(finite(t), z3.fpLEQ(absx(t), pu))))
            out.append(Implies(And(ok, gt(y, zero(y.sort()))), z3.fpGT(t, z) if r == 'U' else z3.fpGEQ(t, z)))
            out.append(Implies(And(ok, lt(y, zero(y.sort()))), z3.fpLT(t, z) if r == 'D' else z3.fpLEQ(t, z)))
            out.append(Implies(And(isZero(y), Or(gt(x, zero(x.sort())), And(isZero(x), isPos(x)))), isZero(t)))
        return out
    def rel(s, reg, a, b):
        out = cong(a, b, Or(Not(isZero(a.args[0])), gt(a.args[1], zero(a.args[1].sort()))))
        (y, x), (v, u) = a.args, b.args
        zy, zx = zero(y.sort()), zero(x.sort())
        fin = And(*[finite(t) for t in (y, x, v, u)])
        # y >= 0: the angle grows with y for x >= 0, shrinks with y for x <= 0, shrinks with x
        up = And(gt(y, zy), gt(v, zero(v.sort())), ge(x, u), Or(And(ge(u, zx), le(y, v)), And(le(x, zx), ge(y, v))))
        dn = And(lt(y, zy), lt(v, zero(v.sort())), le(x, u), Or(And(ge(x, zx), le(y, v)), And(le(u, zx), ge(y, v))))
        return out + reg.order(a, b, And(fin, Or(up, dn)))
A.EXTRA.update(sin=SinCos('sin'), cos=SinCos('cos'), tan=Tan(), par_s=Par(False), par_c=Par(True), kd_s=KD('kd_s'), kd_c=KD('kd_c'), kd_t=KD('kd_t'), atan2=Atan2())
class Root(Base):
    """real k-th root, k >= 1 (odd k: all x, even k: x >= 0)"""
    def k(s, a):
        k = a.args[1]; return z3.BitVecVal(k, 64) if isinstance(k, int) else k
    def single(s, reg, a):
        x = a.args[0]; k = s.k(a); S = a.f.sort; z = zero(S); one = num(1.0, S); x1 = num(1.0, x.sort())
        odd = z3.Extract(0, 0, k) == 1
        dom = And(Not(isNaN(x)), k != 0, Or(odd, Not(isNeg(x)), isZero(x)))
        ts = list(a.res.values())
        out = [isNaN(ts[0]) == Not(dom)]
        out.append(Implies(And(dom, isZero(x)), reg.allres(a, isZero)))
        out.append(Implies(And(dom, isZero(x), Or(odd, Not(isNeg(x)))), reg.allres(a, lambda t: isNeg(t) == isNeg(x))))
        out.append(Implies(And(dom, isInf(x)), reg.allres(a, lambda t: And(isInf(t), isNeg(t) == isNeg(x)))))
        fin = And(dom, finite(x))
        out.append(Implies(fin, reg.allres(a, finite)))
        out.append(Implies(And(fin, gt(x, zero(x.sort()))), reg.allres(a, lambda t: z3.fpGT(t, z))))
        out.append(Implies(And(fin, lt(x, zero(x.sort()))), reg.allres(a, lambda t: z3.fpLT(t, z))))
        out.append(Implies(And(dom, ge(x, x1)), reg.allres(a, lambda t: z3.fpGEQ(t, one))))
        out.append(Implies(And(dom, ge(x, zero(x.sort())), le(x, x1)), reg.allres(a, lambda t: And(z3.fpLEQ(t, one), ge(t, x)))))
        if x.sort() == S: out.append(Implies(And(dom, k == 1), reg.allres(a, lambda t: z3.fpEQ(t, x))))
        for t in a.wide.values(): out.append(Implies(And(dom, k == 1), eq(t, x)))
        return out
    def rel(s, reg, a, b):
        j, k = s.k(a), s.k(b); x, y = a.args[0], b.args[0]; odd = z3.Extract(0, 0, k) == 1
        dom = And(j == k, k != 0, Or(odd, And(ge(x, zero(x.sort())), ge(y, zero(y.sort())))))
        return reg.order(a, b, And(dom, le(x, y)))
A.EXTRA['root'] = Root()
class InvRoot(Base):
    """x^(-1/k), k >= 2 (odd k: all x, even k: x >= 0)"""
    k = Root.k
    def single(s, reg, a):
        x = a.args[0]; k = s.k(a); S = a.f.sort; z = zero(S); one = num(1.0, S); xz = zero(x.sort()); x1 = num(1.0, x.sort())
        odd = z3.Extract(0, 0, k) == 1
        dom = And(Not(isNaN(x)), k != 0, Or(odd, Not(isNeg(x)), isZero(x)))
        ts = list(a.res.values())
        out = [isNaN(ts[0]) == Not(dom)]
        out.append(Implies(And(dom, isZero(x)), reg.allres(a, lambda t: And(isInf(t), isNeg(t) == And(isNeg(x), odd)))))
        out.append(Implies(And(dom, isInf(x)), reg.allres(a, isZero)))
        fin = And(dom, finite(x), Not(isZero(x)))
        out.append(Implies(And(fin, k >= 2), reg.allres(a, lambda t: And(finite(t), ge(absx(t), A.minnormal(S))))))
        out.append(Implies(And(fin, gt(x, xz)), reg.allres(a, lambda t: z3.fpGT(t, z))))
        out.append(Implies(And(fin, lt(x, xz)), reg.allres(a, lambda t: z3.fpLT(t, z))))
        out.append(Implies(And(fin, ge(x, x1)), reg.allres(a, lambda t: z3.fpLEQ(t, one))))
        out.append(Implies(And(fin, ge(x, xz), le(x, x1)), reg.allres(a, lambda t: z3.fpGEQ(t, one))))
        return out
    def rel(s, reg, a, b):
        j, k = s.k(a), s.k(b); x, y = a.args[0], b.args[0]; odd = z3.Extract(0, 0, k) == 1; z = zero(x.sort())
        dom = And(j == k, k != 0, Or(And(gt(x, z), gt(y, z)), And(odd, lt(x, z), lt(y, z))))
        return reg.order(a, b, And(dom, ge(x, y)))
A.EXTRA['invroot'] = InvRoot()
