"""Reference semantics of the interval operations (the oracle), written over solver terms, and generators of harnesses.

Everything here is independent of the implementation: an interval is its pair of bounds, the result of a forward operation is the
tightest interval (outward directed rounding) around the real range, decorations follow IEEE 1788-2015 (strongest local decoration, min)."""
import z3
from se.apps import And, Or, Not, If, Implies, isNaN, isInf, isZero, isNeg, isPos, lt, le, gt, ge, eq, cv, zero, num, absx, finite
from se.fmt import FMT
from se.harness import H, CTY
from se import summary as SM
from se import harness as HHm

ORD = 'fdl'
def widest(*ts): return max(ts, key=ORD.index)
ILL, TRV, DEF, DAC, COM = 0, 4, 8, 12, 16
def D8(v): return z3.BitVecVal(v, 8)
T_, F_ = z3.BoolVal(True), z3.BoolVal(False)

def pinf(s): return z3.fpPlusInfinity(s)
def ninf(s): return z3.fpMinusInfinity(s)
def isPInf(x): return And(isInf(x), isPos(x))
def isNInf(x): return And(isInf(x), isNeg(x))
def nonempty(l, u): return And(Not(isNaN(l)), Not(isNaN(u)), le(l, u), Not(isPInf(l)), Not(isNInf(u)))
def isempty(l, u): return And(isNaN(l), isNaN(u))
def valid(l, u): return Or(isempty(l, u), nonempty(l, u))
def bounded(l, u): return And(finite(l), finite(u))
def mx(*a):
    r = a[0]
    for x in a[1:]: r = If(z3.fpGT(x, r), x, r)
    return r
def mn(*a):
    r = a[0]
    for x in a[1:]: r = If(z3.fpLT(x, r), x, r)
    return r
def decmin(*a):
    r = a[0]
    for x in a[1:]: r = If(z3.ULT(x, r), x, r)
    return r
def isdec(d): return Or(*[d == D8(v) for v in (ILL, TRV, DEF, DAC, COM)])
def dvalid(l, u, d):
    return Or(And(isempty(l, u), Or(d == D8(ILL), d == D8(TRV))),
              And(nonempty(l, u), d != D8(ILL), Or(d != D8(COM), bounded(l, u))))
def isnai(l, u, d): return And(isNaN(l), isNaN(u), d == D8(ILL))

class Ctx:
    """rounding context: functions evaluated to format f"""
    def __init__(self, reg, f): self.reg = reg; self.f = FMT[f]; self.s = self.f.sort
    def R(self, fn, rnd, *args): return self.reg.R(fn, rnd, self.f, self.args(args))
    def args(self, args): return tuple(a if isinstance(a, int) or not z3.is_fp(a) else cv(a, self.s) if a.sort().ebits() <= self.s.ebits() and a.sort().sbits() <= self.s.sbits() else a for a in args)
    def c(self, v): return num(float(v), self.s)
    @property
    def zero(self): return zero(self.s)
    @property
    def inf(self): return pinf(self.s)
    @property
    def ninf(self): return ninf(self.s)
    def w(self, x): return cv(x, self.s)

def clip_lo(c, x, v): return If(lt(x, c.c(v)), c.c(v), c.w(x))
def clip_hi(c, x, v): return If(gt(x, c.c(v)), c.c(v), c.w(x))

class Op:
    """ref(c, xs, ints) -> (empty?, lo, hi) with lo/hi in c.s;  dec(c, xs, ints) -> (defined?, continuous-restriction?, continuous?)"""
    def __init__(self, name, n, ref, dec=None, ints=(), budget=60, pre=None, fn=None, wide_ok=True, emp=None, cflags=(), two_sum=False, via=None):
        self.name = name; self.n = n; self.ref = ref; self.dec = dec or (lambda c, xs, i: (T_, T_, T_)); self.ints = list(ints); self.budget = budget; self.pre = pre; self.fn = fn or name; self.cflags = tuple(cflags); self.two_sum = two_sum; self.via = via
        self.emp = emp or (lambda xs: Or(*[Not(nonempty(*x)) for x in xs]))

def zsame(c, t, x):
    return z3.fpEQ(t, x)

def out_iv(e, o0, o1, lo, hi, lab=''):
    return [(lab + 'lower bound', If(e, isNaN(o0), z3.fpEQ(o0, lo))), (lab + 'upper bound', If(e, isNaN(o1), z3.fpEQ(o1, hi)))]

def hull(reg, T, M, lo, hi):
    if T == M: return lo, hi
    return reg.R('id', 'D', FMT[T], (lo,)), reg.R('id', 'U', FMT[T], (hi,))

def opq_bare(op, reg, t, xs, ints, calling=False):
    """(empty?, lo, hi) of the same-type bare operation as an opaque function (verified by its own harness)"""
    if calling: reg.opq_called += 1
    c = Ctx(reg, t)
    nodef = getattr(op, 'nodef', False)
    if all(z3.is_fp_value(v) for x in xs for v in x) and not nodef:
        e, lo, hi = op.ref(c, xs, ints); e = Or(op.emp(xs), e)
        return e, lo, hi
    def define():
        if nodef: return None
        e, lo, hi = op.ref(c, xs, ints); e = Or(op.emp(xs), e); nan = z3.fpNaN(c.s)
        return If(e, nan, lo), If(e, nan, hi)
    args = [v for x in xs for v in x] + list(ints)
    lo, hi = reg.opaque('%s_%s' % (op.name, t), args, [c.s, c.s], define, lambda v: [valid(*v), Implies(op.emp(xs), isempty(*v))])
    return isNaN(lo), lo, hi
def opq_dec(op, reg, t, xs, ds, ints, calling=False):
    if calling: reg.opq_called += 1
    c = Ctx(reg, t); n = op.n
    bad = Or(*[Or(Not(dvalid(*xs[k], ds[k])), isnai(*xs[k], ds[k])) for k in range(n)])
    e, lo, hi = opq_bare(op, reg, t, xs, ints)
    nan = z3.fpNaN(c.s); e = Or(bad, e)
    def want():
        d, r, k = op.dec(c, xs, ints)
        loc = If(Or(e, Not(d)), D8(TRV), If(Not(r), D8(DEF), If(And(k, bounded(lo, hi)), D8(COM), D8(DAC))))
        return If(bad, D8(ILL), decmin(*ds, loc))
    args = [v for x in xs for v in x] + list(ds) + list(ints)
    if all(z3.is_fp_value(v) or z3.is_bv_value(v) for v in args): return e, lo, hi, want()
    d, = reg.opaque('%s_%s_dec' % (op.name, t), args, [8], lambda: (want(),), lambda v: [dvalid(If(e, nan, lo), If(e, nan, hi), v[0]), (v[0] == D8(ILL)) == bad])
    return e, lo, hi, d
def sem(op, c, xs, ds, ip, reg, T, M, mode='formula'):
    """(empty?, lo, hi, decoration or None) of op in result format T computed in M"""
    n = op.n; dec = bool(ds)
    if op.via and mode != 'formula':
        # defined through another verified operation on transformed operands
        return sem(OPS[op.via[0]], c, op.via[1](xs), ds, ip, reg, T, M, mode)
    if dec:
        bad = Or(*[Or(Not(dvalid(*xs[k], ds[k])), isnai(*xs[k], ds[k])) for k in range(n)])
        emp = op.emp(xs)
    else:
        bad = F_; emp = op.emp(xs)
    if mode == 'dec':
        e, lo, hi, d0 = opq_dec(op, reg, M, [tuple(map(c.w, x)) for x in xs], ds, ip)
        e = Or(bad, emp, e)
        lo, hi = hull(reg, T, M, lo, hi)
        return e, lo, hi, If(bad, D8(ILL), If(And(d0 == D8(COM), Not(bounded(lo, hi))), D8(DAC), d0))
    if mode == 'bare': e, lo, hi = opq_bare(op, reg, M, [tuple(map(c.w, x)) for x in xs], ip)
    else: e, lo, hi = op.ref(c, xs, ip)
    e = Or(bad, emp, e)
    lo, hi = hull(reg, T, M, lo, hi)
    want = None
    if dec:
        d, r, k = op.dec(c, xs, ip)
        loc = If(Or(emp, e, Not(d)), D8(TRV), If(Not(r), D8(DEF), If(And(k, bounded(lo, hi)), D8(COM), D8(DAC))))
        want = If(bad, D8(ILL), decmin(*ds, loc))
    return e, lo, hi, want
def summary(name, t, dec):
    """(function, type, argument types, handler) of the verified operation"""
    op = OPS[name]
    def spec(c, xs, ds, ints):
        nan = z3.fpNaN(c.s)
        if dec: e, lo, hi, d = opq_dec(op, c.reg, t, xs, ds, ints, True)
        else: e, lo, hi = opq_bare(op, c.reg, t, xs, ints, True)
        r = (If(e, nan, lo), If(e, nan, hi))
        return r + (d,) if dec else r
    a = [(SM.decd(t) if dec else SM.bare(t)) + ' const&'] * op.n + ['int'] * len(op.ints)
    return op.fn, t, a, SM.op_summary(op, t, dec, Ctx, spec)

def op_harnesses(op, T, Ts, dec, budget=None, pre=None, tag='', modular=True):
    """harness for flavor<T>::op(interval<Ts[0]>, ...)"""
    M = widest(T, *Ts); n = op.n; w = 3 if dec else 2
    mixed = T != Ts[0] or len(set(Ts)) > 1
    ins = []
    for i, t in enumerate(Ts):
        ins += [('x%dl' % i, t), ('x%du' % i, t)]
        if dec: ins.append(('x%dd' % i, 'u8'))
    nk = w * n
    ints = []
    for j, k in enumerate(op.ints): ins.append(('p%d' % j, k)); ints.append('I(%s,%d)' % (CTY[k], nk + j))
    g = 'ID' if dec else 'IV'
    args = ', '.join(['%s<%s>(in,%d)' % (g, CTY[t], w * i) for i, t in enumerate(Ts)] + ints)
    ct = CTY[T]
    body = '%s<%s>(out,0,F<%s>::%s(%s));' % ('OD' if dec else 'OV', ct, ct, op.fn, args)
    outs = [('rl', T), ('ru', T)] + ([('rd', 'u8')] if dec else [])
    def P(reg, i):
        cs = []
        if dec: cs += [isdec(i[w * k + 2]) for k in range(n)]
        if op.pre: cs += op.pre(reg, [(i[w * k], i[w * k + 1]) for k in range(n)], i[nk:])
        return cs
    def spec(reg, i, o):
        c = Ctx(reg, M)
        xs = [(i[w * k], i[w * k + 1]) for k in range(n)]; ip = i[nk:]
        e, lo, hi, want = sem(op, c, xs, [i[w * k + 2] for k in range(n)] if dec else [], ip, reg, T, M, (('dec' if mixed or op.via else 'bare') if dec else 'bare' if mixed or op.via else 'formula') if modular and reg.opq_called else 'formula')
        post = out_iv(e, o[0], o[1], lo, hi)
        if dec: post.append(('decoration', o[2] == want))
        return post
    if op.via: summ = [(op.via[0], M, dec)]
    else: summ = [(op.name, M, False)] * (dec or mixed) + [(op.name, M, True)] * (dec and mixed)
    nm = '%s_%s_%s%s%s' % (op.name, T, ''.join(Ts), '_dec' if dec else '', tag)
    return H(nm, body, ins, outs, spec, pre=P, bound='all %s bit patterns of every bound%s' % ('/'.join(sorted({CTY[t] for t in (T,) + tuple(Ts)})), ', all 5 decorations' if dec else ''),
             opts=dict(budget=budget or op.budget, group=op.cflags, cflags=op.cflags, two_sum=op.two_sum, summaries=summ if modular else []))

# ------------------------------------------------------------------ reference operations
def prod(c, r, a, b): return If(Or(isZero(a), isZero(b)), c.zero, c.R('mul', r, a, b))
def r_pos(c, xs, i): (l, u), = xs; return F_, c.w(l), c.w(u)
def r_neg(c, xs, i): (l, u), = xs; return F_, c.w(z3.fpNeg(u)), c.w(z3.fpNeg(l))
def r_add(c, xs, i): (a, b), (p, q) = xs; return F_, c.R('add', 'D', a, p), c.R('add', 'U', b, q)
def r_sub(c, xs, i): (a, b), (p, q) = xs; return F_, c.R('sub', 'D', a, q), c.R('sub', 'U', b, p)
def r_mul(c, xs, i):
    cs = [(c.w(a), c.w(b)) for a in xs[0] for b in xs[1]]
    return F_, mn(*[prod(c, 'D', a, b) for a, b in cs]), mx(*[prod(c, 'U', a, b) for a, b in cs])
def has0(x): return And(le(x[0], zero(x[0].sort())), ge(x[1], zero(x[1].sort())))
def is0(x): return And(isZero(x[0]), isZero(x[1]))
def r_div(c, xs, i):
    x, y = xs
    z = c.zero
    xl, xu = map(c.w, x); yl, yu = map(c.w, y)
    emp = is0(y)
    x0 = is0(x)
    ent = Or(And(lt(yl, z), gt(yu, z)), And(lt(xl, z), gt(xu, z), has0(y)))
    # y of one sign (possibly with a zero end): candidate quotients; division by the zero end is +-infinity, 0/0 and inf/inf corners add nothing
    def q(r, a, b, bl):
        # b is a bound of y; b==0 approached from y's side
        s = c.R('div', r, a, b)
        atz = If(isZero(a), z, If(z3.Xor(isNeg(a), bl), c.ninf, c.inf))
        ati = If(Or(isInf(b)), z, s)
        return If(isZero(b), atz, ati)
    yneg = le(yu, z)
    cs = [(a, b) for a in (xl, xu) for b in (yl, yu)]
    lo = mn(*[q('D', a, b, yneg) for a, b in cs]); hi = mx(*[q('U', a, b, yneg) for a, b in cs])
    return emp, If(x0, z, If(ent, c.ninf, lo)), If(x0, z, If(ent, c.inf, hi))
def r_recip(c, xs, i): return r_div(c, [(c.c(1), c.c(1)), xs[0]], i)
def maxabs(c, x): a, b = c.w(absx(x[0])), c.w(absx(x[1])); return If(gt(a, b), a, b)
def minabs(c, x):
    a, b = c.w(absx(x[0])), c.w(absx(x[1]))
    return If(has0(x), c.zero, If(lt(a, b), a, b))
def r_sqr(c, xs, i): return F_, c.R('sqr', 'D', minabs(c, xs[0])), c.R('sqr', 'U', maxabs(c, xs[0]))
def r_cosh(c, xs, i): return F_, c.R('cosh', 'D', minabs(c, xs[0])), c.R('cosh', 'U', maxabs(c, xs[0]))
def r_abs(c, xs, i): return F_, minabs(c, xs[0]), maxabs(c, xs[0])
def r_fma(c, xs, i):
    x, y, (zl, zu) = xs
    zl, zu = c.w(zl), c.w(zu)
    def f(r, a, b, d):
        # a*b+d with 0*inf = 0 ; d is a bound of z on the same side (never the opposite infinity)
        p0 = Or(isZero(a), isZero(b))
        return If(p0, d, If(isInf(d), d, c.R('fma', r, a, b, d)))
    cs = [(c.w(a), c.w(b)) for a in x for b in y]
    lo = If(isInf(zl), c.ninf, mn(*[f('D', a, b, zl) for a, b in cs]))
    hi = If(isInf(zu), c.inf, mx(*[f('U', a, b, zu) for a, b in cs]))
    return F_, lo, hi
def mono(fn, dlo=None, dhi=None, open_=False, dir=1):
    def ref(c, xs, i):
        (l, u), = xs
        e = F_
        a, b = c.w(l), c.w(u)
        if dlo is not None:
            e = Or(e, le(u, c.c(dlo)) if open_ else lt(u, c.c(dlo))); a = clip_lo(c, l, dlo)
        if dhi is not None:
            e = Or(e, ge(l, c.c(dhi)) if open_ else gt(l, c.c(dhi))); b = clip_hi(c, u, dhi)
        if dir < 0: a, b = b, a
        return e, c.R(fn, 'D', a), c.R(fn, 'U', b)
    def dec(c, xs, i):
        (l, u), = xs
        d = T_
        if dlo is not None: d = And(d, gt(l, c.c(dlo)) if open_ else ge(l, c.c(dlo)))
        if dhi is not None: d = And(d, lt(u, c.c(dhi)) if open_ else le(u, c.c(dhi)))
        return d, d, d
    return ref, dec
def d_div(c, xs, i): d = Not(has0(xs[-1])); return d, d, d
# integer valued functions
def rnd2(fn):
    def ref(c, xs, i): (l, u), = xs; return F_, c.R(fn, 'N', c.w(l)), c.R(fn, 'N', c.w(u))
    return ref
def isint(x): return And(finite(x), z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), x), x))
def ishalf(x):
    """x is an odd multiple of 1/2"""
    t = z3.fpRoundToIntegral(z3.RTZ(), absx(x)); d = z3.fpSub(z3.RNE(), absx(x), t)
    return And(finite(x), z3.fpEQ(d, num(0.5, x.sort())))
def step(fn, disc):
    def dec(c, xs, i):
        (l, u), = xs
        a, b = c.R(fn, 'N', c.w(l)), c.R(fn, 'N', c.w(u))
        single = And(z3.fpEQ(a, b), finite(a))
        return T_, single, And(single, Not(disc(l, u)))
    return dec
def r_sign(c, xs, i):
    (l, u), = xs
    sg = lambda v: If(isZero(v), c.zero, If(isNeg(v), c.c(-1), c.c(1)))
    return F_, sg(l), sg(u)
def d_sign(c, xs, i):
    x = xs[0]; s = Or(is0(x), Not(has0(x))); return T_, s, And(s, Not(has0(x)))
def r_min(c, xs, i): (a, b), (p, q) = xs; return F_, mn(c.w(a), c.w(p)), mn(c.w(b), c.w(q))
def r_max(c, xs, i): (a, b), (p, q) = xs; return F_, mx(c.w(a), c.w(p)), mx(c.w(b), c.w(q))
# powers
def sx(p): return z3.SignExt(64 - p.size(), p)
def r_pown(c, xs, i):
    x, = xs; p = sx(i[0]); z = c.zero
    l, u = map(c.w, x)
    even = z3.Extract(0, 0, p) == 0
    P = lambda r, a: c.R('pown', r, a, p)
    neg = p < 0
    emp = And(neg, is0(x))
    big, small = maxabs(c, x), minabs(c, x)
    cross = And(lt(l, z), gt(u, z))
    # even power: function of |x|
    elo = If(neg, P('D', big), P('D', small)); ehi = If(neg, If(isZero(small), c.inf, P('U', small)), P('U', big))
    # odd positive: increasing;  odd negative: decreasing on each side of 0
    olo = If(neg, If(isZero(u), c.ninf, P('D', u)), P('D', l)); ohi = If(neg, If(isZero(l), c.inf, P('U', l)), P('U', u))
    olo = If(And(neg, cross), c.ninf, olo); ohi = If(And(neg, cross), c.inf, ohi)
    one = c.c(1)
    return emp, If(p == 0, one, If(even, elo, olo)), If(p == 0, one, If(even, ehi, ohi))
def d_pown(c, xs, i): d = Not(And(sx(i[0]) < 0, has0(xs[0]))); return d, d, d
def r_pow(c, xs, i):
    x, y = xs; z = c.zero
    a, b = c.w(x[0]), c.w(x[1]); p, q = c.w(y[0]), c.w(y[1])
    a = If(le(a, z), z, a)
    emp = Or(lt(b, z), And(isZero(b), le(q, z)))
    bz = isZero(b)
    # x^y over (0 or positive) corners; 0^y = 0 for y>0, limit +inf for y<0; y=0 with x=0 is excluded but x->0+ gives 1
    def f(r, u, v):
        ui, vi = u, v
        return c.R('pow', r, u, v)
    cs = [(u, v) for u in (a, If(bz, z, b)) for v in (p, q)]
    # corner at (0,0): limit along x->0+, y=0 is 1 ; mpfr gives 1.  (0, -) gives +inf, corners (1, inf), (inf, 0) give 1: all attained as limits
    lo = mn(*[f('D', u, v) for u, v in cs]); hi = mx(*[f('U', u, v) for u, v in cs])
    return emp, If(bz, z, lo), If(bz, z, hi)
def d_pow(c, xs, i):
    x, y = xs; z = c.zero
    d = And(ge(x[0], z), Or(gt(x[0], z), gt(y[0], z)))
    return d, d, d

OPS = {}
def defop(name, n, ref, dec=None, **k): OPS[name] = Op(name, n, ref, dec, **k)
defop('pos', 1, r_pos); defop('neg', 1, r_neg)
defop('add', 2, r_add); defop('sub', 2, r_sub); defop('mul', 2, r_mul); defop('div', 2, r_div, d_div); defop('recip', 1, r_recip, d_div)
defop('sqr', 1, r_sqr); defop('sqrt', 1, *mono('sqrt', 0.0)); defop('fma', 3, r_fma)
for f in ('exp', 'exp2', 'exp10', 'atan', 'sinh', 'tanh', 'asinh'): defop(f, 1, *mono(f))
for f in ('log', 'log2', 'log10'): defop(f, 1, *mono(f, 0.0, None, True))
defop('asin', 1, *mono('asin', -1.0, 1.0)); defop('acos', 1, *mono('acos', -1.0, 1.0, dir=-1))
defop('acosh', 1, *mono('acosh', 1.0)); defop('atanh', 1, *mono('atanh', -1.0, 1.0, True)); defop('cosh', 1, r_cosh)
defop('sign', 1, r_sign, d_sign); defop('abs', 1, r_abs); defop('min', 2, r_min); defop('max', 2, r_max)
defop('ceil', 1, rnd2('rint_ceil'), step('rint_ceil', lambda l, u: isint(u)))
defop('floor', 1, rnd2('rint_floor'), step('rint_floor', lambda l, u: isint(l)))
defop('trunc', 1, rnd2('rint_trunc'), step('rint_trunc', lambda l, u: Or(And(Not(isZero(l)), isint(l)), And(Not(isZero(u)), isint(u)))))
defop('round_ties_to_even', 1, rnd2('rint_roundeven'), step('rint_roundeven', lambda l, u: Or(ishalf(l), ishalf(u))))
defop('round_ties_to_away', 1, rnd2('rint_round'), step('rint_round', lambda l, u: Or(ishalf(l), ishalf(u))))
defop('pown', 1, r_pown, d_pown, ints=['i32']); defop('pow', 2, r_pow, d_pow)

def r_cancel_minus(c, xs, i):
    x, y = xs; xl, xu = map(c.w, x); yl, yu = map(c.w, y)
    ub = lambda a: And(Not(isempty(*a)), Or(isInf(a[0]), isInf(a[1])))
    unb = Or(ub(x), ub(y))
    xe, ye = isempty(*x), isempty(*y)
    narrower = lt(c.reg.sgn4(c.f, xu, z3.fpNeg(xl), yu, z3.fpNeg(yl)), c.zero)     # exact wid(x) < wid(y)
    ent = Or(unb, And(Not(xe), Or(ye, narrower)))
    return And(xe, Not(unb)), If(ent, c.ninf, c.R('sub', 'D', xl, yl)), If(ent, c.inf, c.R('sub', 'U', xu, yu))
def r_cancel_plus(c, xs, i):
    x, y = xs; return r_cancel_minus(c, [x, (z3.fpNeg(y[1]), z3.fpNeg(y[0]))], i)
def p_cancel_plus(reg, xs, i): return [valid(*xs[1])]
inval = lambda xs: Or(*[Not(valid(*x)) for x in xs])
d_trv = lambda c, xs, i: (F_, F_, F_)
defop('cancel_minus', 2, r_cancel_minus, d_trv, emp=inval, cflags=('-fno-inline',), two_sum=True, budget=200)
defop('cancel_plus', 2, r_cancel_plus, d_trv, emp=inval, cflags=('-fno-inline',), two_sum=True, budget=200, pre=p_cancel_plus, via=('cancel_minus', lambda xs: [xs[0], (z3.fpNeg(xs[1][1]), z3.fpNeg(xs[1][0]))]))
HHm.SUMMARY = summary
