"""Semantic model of the MPFR functions the library calls.

MPFR's contract (correct rounding of every operation in the current exponent range, ternary value, mpfr_subnormalize) is the
trusted base.  Operations on constants are evaluated with the real libmpfr; exact operations (add, sub, neg, abs, min, max,
conversion, integer rounding) become IEEE terms of the solver; all other functions become variables constrained by facts that
follow from correct rounding and from the function (see axioms.py)."""
import z3
from . import fmt as F
from .apps import minnormal
from .fmt import FMT, ZRM, RNDI
from .exec import Infeasible, TernBase, rv, Unsupported, Bad, Impure, Ptr, PIte, NULL, UNDEF, bv, conc, concbv, zb, is_const_fp, s64, ite
from .apps import Reg, cv

EXACT1 = {'rint_ceil', 'rint_floor', 'rint_trunc', 'rint_round', 'rint_roundeven', 'rint', 'ceil', 'floor', 'trunc', 'round'}

def is_sub(s, f):
    """values of sort s all representable in fmt f"""
    return s.ebits() <= f.eb and s.sbits() <= f.p

class App:
    """pending result: rnd(fn(args)) to `prec` bits in [emin,emax], not yet subnormalised"""
    __slots__ = ('fn', 'args', 'rnd', 'prec', 'rng', 'afmt')
    def __init__(s, fn, args, rnd, prec, rng): s.fn = fn; s.args = args; s.rnd = rnd; s.prec = prec; s.rng = rng

class Half:
    """exact x/2"""
    __slots__ = ('x',)
    def __init__(s, x): s.x = x
    def wide(s):
        S = s.x.sort(); W = z3.FPSort(S.ebits() + 2, S.sbits())
        return z3.simplify(z3.fpMul(z3.RNE(), cv(s.x, W), z3.FPVal(0.5, W)))

class Prod:
    """exact product of two values"""
    __slots__ = ('a', 'b', 'bits')
    def __init__(s, a, b): s.a = a; s.b = b; s.bits = a.sort().sbits() + b.sort().sbits()
    def wide(s): raise Unsupported('exact product used as an operand')
class XSum:
    """pending rounded sum of exact terms (values or products)"""

class MV:
    __slots__ = ('prec', 'v', 'tok')
    def __init__(s, prec): s.prec = prec; s.v = None; s.tok = None

class Tern(TernBase):
    """ternary value handed back by an mpfr operation: argument of subnormalize / check_range, or sign of the rounding error"""
    def __init__(s, n, exact=False, val=None): s.n = n; s.exact = exact; s.val = val; s.t = None
    def bv(s):
        if s.exact: return 0
        if s.val is None: raise Unsupported('ternary value of a result that is not final')
        if s.t is None: s.t = s.val() if callable(s.val) else s.val & 0xffffffff
        return s.t
def ternval(e, fn, r, f, args):
    """sign of rounded minus exact value, for a result that is the correctly rounded IEEE value"""
    reg = e.reg
    def g():
        if r not in 'DU': raise Unsupported('ternary value of rounding ' + r)
        d, u = reg.R(fn, 'D', f, args), reg.R(fn, 'U', f, args)
        t = z3.simplify(z3.If(z3.Or(z3.fpIsNaN(d), z3.fpEQ(d, u)), z3.BitVecVal(0, 32), z3.BitVecVal(1 if r == 'U' else 0xffffffff, 32)))
        return t.as_long() if z3.is_bv_value(t) else t
    return g

DEFRANGE = (-(1 << 62) + 1, (1 << 62) - 1)

class State:
    def __init__(s):
        s.vars = {}; s.rng = DEFRANGE; s.rng_set = [False, False]; s.n = 0; s.leaks = []; s.ops = set(); s.pending_rng = None; s.unset_use = False

def st(e):
    if e.mp is None: e.mp = State()
    return e.mp

def pkey(e, p):
    if isinstance(p, PIte): raise Unsupported('mpfr ite pointer')
    if not isinstance(p, Ptr): raise Bad('mpfr null')
    return (p.o.id, p.f)

def var(e, p):
    m = st(e).vars.get(pkey(e, p))
    if m is None: raise Bad('use of an uninitialised mpfr variable')
    return m
def native(prec, rng):
    for f in FMT.values():
        if prec == f.p and rng == (f.emin, f.emax): return f
    return None
def pure(e):
    if e.pure: raise Impure()

def get_x(e, p, what=''):
    """exact value term of variable p (IEEE term of some sort)"""
    m = p if isinstance(p, MV) else var(e, p)
    v = m.v
    if v is None: raise Bad('value of unset mpfr variable used')
    if isinstance(v, App): return materialize(e, m)
    if isinstance(v, (Half, Prod)): return v.wide()
    return v

def halves(rng, *xs):
    """halving values of these sorts is exact in this exponent range"""
    fs = [F.fmt_of_sort(x.sort()) for x in xs]
    return all(f is not None and rng[0] <= f.emin - 1 and rng[1] >= f.emax for f in fs)

def materialize(e, m):
    """a pending (not subnormalised) result used as an operand"""
    a = m.v
    f = native(a.prec, a.rng)
    if f is None: raise Unsupported('pending value in foreign range: ' + a.fn)
    # wide sort can hold every p-bit value with exponent down to the denormal exponent
    W = z3.FPSort(f.eb + 2, f.p)
    reg = e.reg
    w = reg.widevar(a.fn, a.rnd, f, a.args, W)
    return w

def setv(e, p, v):
    pure(e)
    m = p if isinstance(p, MV) else var(e, p)
    m.v = v
    s = st(e); s.n += 1; m.tok = s.n
    return Tern(s.n)

def rndname(e, r):
    if not isinstance(r, int):
        pure(e)
        r = e.choose([(k, r == z3.BitVecVal(k & 0xffffffff, 32)) for k in RNDI])
    r = s64(r & 0xffffffff, 32)
    if r not in RNDI: raise Unsupported('rounding mode %d' % r)
    return RNDI[r]

def conv_arg(e, x, fmt):
    """bring an exact term into the sort of fmt when that is exact"""
    if x.sort() == fmt.sort: return x
    if is_sub(x.sort(), fmt): 
        return cv(x, fmt.sort)
    return None

def common(xs):
    """bring terms to a common wide-enough sort"""
    eb = max(x.sort().ebits() for x in xs); sb = max(x.sort().sbits() for x in xs)
    S = z3.FPSort(eb, sb)
    out = []
    for x in xs:
        if x.sort() != S:
            x = cv(x, S)
        out.append(x)
    return out

def impossible(e, c=None):
    """the condition contradicts the path together with all facts about the functions applied on it"""
    cs = list(e.pc) + ([] if c is None else [c])
    k = tuple(t.get_id() for t in cs); cache = e.__dict__.setdefault('impcache', {})
    if k not in cache: cache[k] = (e.runner.solve(cs + e.reg.facts())[0] == z3.unsat, cs)
    return cache[k][0]
def operation(e, fn, p, args, rnd):
    """p := rnd(fn(args)); args are exact FP terms or ints"""
    pure(e)
    m = var(e, p); s = st(e)
    rng = rng_of(e); s.ops.add(fn)
    f = native(m.prec, rng)
    if fn in ('mul', 'sqr') and f is None and all(z3.is_fp(a) if not isinstance(a, (int, Half)) else False for a in args):
        a, b = args[0], args[-1]; fa, fb = F.fmt_of_sort(a.sort()), F.fmt_of_sort(b.sort())
        if fa and fb and m.prec >= fa.p + fb.p and rng[0] <= fa.emin + fb.emin - 1 and rng[1] >= fa.emax + fb.emax: return setv(e, p, Prod(a, b))
    if fn in ('div', 'mul') and not isinstance(args[0], (int, Half)) and not is_const_fp(args[0]) and args[0].sort().sbits() <= m.prec and is_const_fp(args[1]) and F_num(args[1])[0] == 'num':
        k = F.frac(F_num(args[1]))
        if k == (2 if fn == 'div' else F.Fraction(1, 2)) and halves(rng, args[0]): return setv(e, p, Half(args[0]))
    if any(isinstance(a, Half) for a in args):
        if fn in ('add', 'sub') and all(isinstance(a, Half) for a in args):
            xs = [a.x for a in args]
            if fn == 'sub': xs[1] = z3.simplify(z3.fpNeg(xs[1]))
            if halves(rng, *xs): return setv(e, p, App('avg', tuple(xs), rnd, m.prec, DEFRANGE))
        args = [a.wide() if isinstance(a, Half) else a for a in args]
    if all(isinstance(a, int) or is_const_fp(a) for a in args):
        pa = [a if isinstance(a, int) else F_num(a) for a in args]
        v, t = F.call(F.MPNAME.get(fn, fn), pa, rnd, m.prec, rng, sub=False)
        return setconst(e, p, v, t)
    if f is None:
        return foreign(e, fn, p, m, args, rnd, rng)
    ca = []
    for a in args:
        if z3.is_fp(a) if not isinstance(a, int) else False:
            b = conv_arg(e, a, f)
            ca.append(a if b is None else b)
        else: ca.append(a)
    if fn in ('add', 'sub') and all(a.sort() == f.sort for a in ca):
        # a sum of two values of the format is exact below the normal range: no second rounding
        t = setv(e, p, e.reg.R(fn, rnd, f, tuple(ca))); t.val = ternval(e, fn, rnd, f, tuple(ca)); return t
    if fn in ('root', 'sqrt') and ca[0].sort() == f.sort:
        # roots of values of the format lie in its normal range (or are the argument): no second rounding
        t = setv(e, p, e.reg.R(fn, rnd, f, tuple(ca))); t.val = ternval(e, fn, rnd, f, tuple(ca)); return t
    if fn == 'div' and ca[0].sort() == ca[1].sort() == f.sort and any(a.fn == 'root' and any(t.eq(ca[1]) for t in a.res.values()) for a in e.reg.used.values()):
        # a reciprocal root is normal too
        c = e.reg.R(fn, rnd, f, tuple(ca)); e.reg.R(fn, 'D', f, tuple(ca)); e.reg.R(fn, 'U', f, tuple(ca))
        if impossible(e, z3.And(z3.Not(z3.fpIsZero(c)), z3.fpLT(z3.fpAbs(c), minnormal(f.sort)))):
            t = setv(e, p, c); t.val = ternval(e, fn, rnd, f, tuple(ca)); return t
    if fn in EXACT1 and ca[0].sort() == f.sort:
        return setv(e, p, rint_term(fn, rnd, ca[0]))
    t = setv(e, p, App(fn, tuple(ca), rnd, m.prec, rng)); t.val = pendval(e, fn, rnd, f, tuple(ca)); return t
def pendval(e, fn, r, f, args):
    """sign of rounded minus exact value before subnormalisation"""
    reg = e.reg
    def g():
        if r not in 'DU': raise Unsupported('ternary value of rounding ' + r)
        W = z3.FPSort(f.eb + 2, f.p)
        d, u = reg.widevar(fn, 'D', f, args, W), reg.widevar(fn, 'U', f, args, W)
        return z3.If(z3.Or(z3.fpIsNaN(d), z3.fpEQ(d, u)), z3.BitVecVal(0, 32), z3.BitVecVal(1 if r == 'U' else 0xffffffff, 32))
    return g

def fixzero(t): return t

def rint_term(fn, rnd, x):
    rm = {'rint_ceil': z3.RTP(), 'ceil': z3.RTP(), 'rint_floor': z3.RTN(), 'floor': z3.RTN(), 'rint_trunc': z3.RTZ(), 'trunc': z3.RTZ(),
          'rint_round': z3.RNA(), 'round': z3.RNA(), 'rint_roundeven': z3.RNE(), 'rint': ZRM[rnd]}[fn]
    return z3.fpRoundToIntegral(rm, x)

def foreign(e, fn, p, m, args, rnd, rng):
    """operation in a non IEEE range/precision: exact wide arithmetic for add/sub/mul/div by constants"""
    if fn in ('add', 'sub', 'neg', 'abs', 'id', 'mul', 'div', 'sqr') :
        emx = max(rng[1], -rng[0])
        eb = max(18, emx.bit_length() + 3) if emx < (1 << 20) else 22
        xs = [a for a in args if not isinstance(a, int)]
        sb = m.prec
        if any(x.sort().sbits() > sb for x in xs): raise Unsupported('precision loss in foreign ' + fn)
        W = z3.FPSort(eb, sb)
        ws = [cv(x, W) for x in xs]
        rm = ZRM[rnd]
        if fn == 'add': t = z3.fpAdd(rm, *ws)
        elif fn == 'sub': t = z3.fpSub(rm, *ws)
        elif fn == 'neg': t = z3.fpNeg(ws[0])
        elif fn == 'abs': t = z3.fpAbs(ws[0])
        elif fn == 'id': t = ws[0]
        elif fn in ('mul', 'div') and any(is_const_fp(w) for w in ws): t = z3.fpMul(rm, *ws) if fn == 'mul' else z3.fpDiv(rm, *ws)
        else: raise Unsupported('foreign ' + fn)
        return setv(e, p, clamp(t, rnd, rng, W))
    raise Unsupported('foreign range operation %s prec %d range %s' % (fn, m.prec, rng))

def wconst(mant, exp, W):
    """mant*2^exp as FP numeral of sort W, or None if out of range"""
    import fractions
    if mant == 0: return z3.fpPlusZero(W)
    n = mant.bit_length(); E = exp + n - 1
    bias = (1 << (W.ebits() - 1)) - 1
    if E > bias or E < 1 - bias: return None
    mb = W.sbits() - 1
    sg = (mant << (mb - (n - 1))) if n - 1 <= mb else None
    if sg is None: raise Unsupported('wconst')
    return z3.simplify(z3.fpFP(z3.BitVecVal(0, 1), z3.BitVecVal(E + bias, W.ebits()), z3.BitVecVal(sg & ((1 << mb) - 1), mb)))

def clamp(t, rnd, rng, W):
    p = W.sbits()
    mx = wconst((1 << p) - 1, rng[1] - p, W)
    mn = wconst(1, rng[0] - 1, W)
    pi, ni = z3.fpPlusInfinity(W), z3.fpMinusInfinity(W)
    r = t
    if mx is not None:
        nmx = z3.fpNeg(mx)
        up = {'N': pi, 'U': pi, 'D': mx, 'Z': mx, 'A': pi}[rnd]; dn = {'N': ni, 'U': nmx, 'D': ni, 'Z': nmx, 'A': ni}[rnd]
        r = z3.If(z3.And(z3.fpGT(t, mx), z3.Not(z3.fpIsInf(t))), up, z3.If(z3.And(z3.fpLT(t, nmx), z3.Not(z3.fpIsInf(t))), dn, r))
    if mn is not None:
        half = wconst(1, rng[0] - 2, W)
        z = z3.fpPlusZero(W); nz = z3.fpMinusZero(W)
        pos = z3.And(z3.fpGT(t, z), z3.fpLT(t, mn)); neg = z3.And(z3.fpLT(t, z), z3.fpGT(t, z3.fpNeg(mn)))
        up = {'N': z3.If(z3.fpGT(t, half), mn, z), 'U': mn, 'D': z, 'Z': z, 'A': mn}[rnd]
        dn = {'N': z3.If(z3.fpLT(t, z3.fpNeg(half)), z3.fpNeg(mn), nz), 'U': nz, 'D': z3.fpNeg(mn), 'Z': nz, 'A': z3.fpNeg(mn)}[rnd]
        r = z3.If(pos, up, z3.If(neg, dn, r))
    return r

def F_num(a):
    """z3 FP numeral of any sort -> python number"""
    if a.isNaN(): return F.NAN
    sgn = 1 if a.sign() else 0
    if a.isInf(): return ('inf', sgn)
    if a.isZero(): return ('zero', sgn)
    eb = a.sort().ebits(); mb = a.sort().sbits() - 1
    m = a.significand_as_long(); e = a.exponent_as_long(True)
    bias = (1 << (eb - 1)) - 1
    if e == 0: return ('num', sgn, m, 1 - bias - mb)
    return ('num', sgn, m | (1 << mb), e - bias - mb)

def const_term(v, prec, rng):
    """python number -> FP numeral in a sort that holds it exactly"""
    for f in sorted(FMT.values(), key=lambda f: f.p):
        if prec <= f.p or v[0] != 'num':
            try: return F.bits_to_z3(F.to_bits(v, f.n), f.n)
            except ValueError: continue
    W = z3.FPSort(22, max(prec, 64))
    t = wconst(v[2], v[3], W)
    if t is None: raise Unsupported('constant out of range')
    return z3.simplify(z3.fpNeg(t)) if v[1] else t

def setconst(e, p, v, tern):
    m = var(e, p)
    f = native(m.prec, st(e).rng)
    if f is not None and v[0] == 'num':
        try: t = F.bits_to_z3(F.to_bits(v, f.n), f.n)
        except ValueError:
            # needs subnormalisation: keep pending as a concrete wide value
            t = const_term(v, m.prec, st(e).rng)
            m2 = setv(e, p, t); m.v = ConstPending(t, v, tern); return m2
        r = setv(e, p, t)
        m.v = ConstPending(t, v, tern) if tern else t
        r.val = tern
        return r
    r = setv(e, p, const_term(v, m.prec, st(e).rng) if f is None else F.bits_to_z3(F.to_bits(v, f.n), f.n))
    r.val = tern
    return r

class ConstPending:
    """constant together with the real ternary value"""
    def __init__(s, t, v, tern): s.t = t; s.v = v; s.tern = tern

def rng_of(e):
    s = st(e)
    if not (s.rng_set[0] and s.rng_set[1]): s.unset_use = True
    return tuple(s.rng)

# ------------------------------------------------------------------ entry points
def mk():
    ext = {}
    def reg(*names):
        def d(f):
            for n in names: ext[n] = f
            return f
        return d

    @reg('mpfr_set_emin')
    def _(e, a):
        pure(e); s = st(e)
        if not isinstance(a[0], int): raise Unsupported('symbolic emin')
        s.rng = (s64(a[0], 64), s.rng[1]); s.rng_set[0] = True; return 0
    @reg('mpfr_set_emax')
    def _(e, a):
        pure(e); s = st(e)
        if not isinstance(a[0], int): raise Unsupported('symbolic emax')
        s.rng = (s.rng[0], s64(a[0], 64)); s.rng_set[1] = True; return 0
    @reg('mpfr_init2')
    def _(e, a):
        pure(e); s = st(e); k = pkey(e, a[0])
        if not isinstance(a[1], int): raise Unsupported('symbolic precision')
        if k in s.vars: raise Bad('mpfr_init2 of a live variable (leak)')
        s.vars[k] = MV(s64(a[1], 64)); return None
    @reg('mpfr_clear')
    def _(e, a):
        pure(e); s = st(e); k = pkey(e, a[0])
        if k not in s.vars: raise Bad('mpfr_clear of an uninitialised variable')
        del s.vars[k]; return None
    @reg('mpfr_free_cache')
    def _(e, a): return None

    def gx(e, p): 
        v = (p if isinstance(p, MV) else var(e, p)).v
        if isinstance(v, ConstPending): return v.t
        return get_x(e, p)

    def gxh(e, p):
        m = p if isinstance(p, MV) else var(e, p)
        return m.v if isinstance(m.v, Half) else gx(e, p)

    def setfp(e, a):
        p, x, r = a[0], a[1], rndname(e, a[2])
        if x is UNDEF: raise Unsupported('undef value')
        return assign(e, p, x, r)
    def assign(e, p, x, r):
        m = var(e, p); rng = rng_of(e)
        f = native(m.prec, rng)
        if f is not None:
            c = conv_arg(e, x, f)
            if c is not None:
                setv(e, p, c); return Tern(m.tok, True)
            return operation(e, 'id', p, [x], r)
        # foreign range: exact if it fits
        emx = rng[1]; eb = x.sort().ebits()
        if x.sort().sbits() <= m.prec and (1 << (eb - 1)) <= rng[1] and 3 - (1 << (eb - 1)) - x.sort().sbits() + 1 >= rng[0]:
            setv(e, p, x); return Tern(m.tok, True)
        return operation(e, 'id', p, [x], r)
    for n in ('d', 'flt', 'ld'): ext['mpfr_set_' + n] = setfp
    @reg('mpfr_set', 'mpfr_set4')
    def _(e, a):
        v = var(e, a[1]).v
        if isinstance(v, Prod) and var(e, a[0]).prec >= v.bits: setv(e, a[0], v); return Tern(var(e, a[0]).tok, True)
        return assign(e, a[0], gx(e, a[1]), rndname(e, a[2]))
    @reg('mpfr_get_emin_min')
    def _(e, a): return DEFRANGE[0] & ((1 << 64) - 1)
    @reg('mpfr_get_emin_max')
    def _(e, a): return DEFRANGE[1]
    @reg('mpfr_get_emax_max')
    def _(e, a): return DEFRANGE[1]
    @reg('mpfr_get_emax_min')
    def _(e, a): return DEFRANGE[0] & ((1 << 64) - 1)
    @reg('mpfr_get_emin')
    def _(e, a):
        if not st(e).rng_set[0]: raise Unsupported('emin not set')
        return st(e).rng[0] & ((1 << 64) - 1)
    @reg('mpfr_get_emax')
    def _(e, a):
        if not st(e).rng_set[1]: raise Unsupported('emax not set')
        return st(e).rng[1] & ((1 << 64) - 1)
    @reg('mpfr_sum')
    def _(e, a):
        pure(e)
        n = a[2]; r = rndname(e, a[3]); m = var(e, a[0])
        if not isinstance(n, int): raise Unsupported('symbolic number of terms')
        ts = []
        for i in range(n):
            q = e.load(Ptr(a[1].o, a[1].f + 8 * i), ir_PTR())
            v = var(e, q).v
            if isinstance(v, ConstPending): v = v.t
            if v is None: raise Bad('sum of unset mpfr variable')
            if isinstance(v, Prod): ts.append((v.a, v.b))
            else: ts.append((gx(e, q),))
        if n == 0: return setconst(e, a[0], ('zero', 0), 0)
        fn, args = xsum(ts)
        return setv(e, a[0], App(fn, args, r, m.prec, rng_of(e)))
    def intterm(v, n=64, signed=True):
        if isinstance(v, int):
            x = s64(v, n) if signed else v
            if x == 0: return F.bits_to_z3(0, 'l')
            return F.bits_to_z3(F.to_bits(('num', 1 if x < 0 else 0, abs(x), 0), 'l'), 'l')
        return z3.fpSignedToFP(z3.RNE(), v, F.SORT['l']) if signed else z3.fpUnsignedToFP(z3.RNE(), v, F.SORT['l'])
    @reg('mpfr_set_si')
    def _(e, a):
        return assign(e, a[0], intterm(a[1]), rndname(e, a[2]))
    @reg('mpfr_set_ui')
    def _(e, a):
        return assign(e, a[0], intterm(a[1], signed=False), rndname(e, a[2]))
    @reg('mpfr_set_inf')
    def _(e, a):
        s = a[1]
        if not isinstance(s, int): raise Unsupported('symbolic sign')
        setv(e, a[0], F.bits_to_z3(F.to_bits(('inf', 1 if s64(s, 32) < 0 else 0), 'f'), 'f')); return None
    @reg('mpfr_set_zero')
    def _(e, a):
        setv(e, a[0], F.bits_to_z3(F.to_bits(('zero', 1 if s64(a[1], 32) < 0 else 0), 'f'), 'f')); return None
    @reg('mpfr_set_nan')
    def _(e, a):
        setv(e, a[0], F.bits_to_z3(F.to_bits(F.NAN, 'f'), 'f')); return None
    @reg('mpfr_swap')
    def _(e, a):
        pure(e); x, y = var(e, a[0]), var(e, a[1])
        s = st(e); s.vars[pkey(e, a[0])], s.vars[pkey(e, a[1])] = y, x; return None

    def subn(e, a):
        pure(e)
        p, t, r = a[0], a[1], rndname(e, a[2])
        m = var(e, p); rng = rng_of(e)
        f = native(m.prec, rng)
        v = m.v
        if v is None: raise Bad('subnormalize of unset variable')
        if f is None:
            if rng[0] <= -(1 << 30) and m.prec < (1 << 20) and not isinstance(v, (App, ConstPending)): return t     # no value is subnormal in such a range
            raise Unsupported('subnormalize in a foreign range')
        ok = isinstance(t, Tern) and t.n == m.tok
        if isinstance(v, ConstPending):
            tern = v.tern if ok else (0 if isinstance(t, Tern) and t.exact else None if isinstance(t, Tern) else s64(t & 0xffffffff, 32))
            if tern is None: raise Unsupported('foreign ternary value')
            L = F.lib(); F.setrange(*F.WIDE); q = F.MP(m.prec).set(v.v); F.setrange(*rng)
            import ctypes
            tern = L.mpfr_subnormalize(ctypes.c_void_p(q.p), ctypes.c_int(tern), ctypes.c_int(F.RND[r]))
            x = q.get(); F.setrange(*F.WIDE)
            m.v = F.bits_to_z3(F.to_bits(x, f.n), f.n)
            return Tern(m.tok, val=tern)
        if isinstance(v, App):
            if v.rnd == r and ok and (v.prec, v.rng) == (m.prec, rng):
                m.v = e.reg.R(v.fn, r, f, v.args)
                return Tern(m.tok, val=ternval(e, v.fn, r, f, v.args))
            else:
                # rounded twice, or with a ternary value of another operation: anything between the directed roundings
                d = e.reg.R(v.fn, 'D', f, v.args); u = e.reg.R(v.fn, 'U', f, v.args)
                c = e.reg.R(v.fn, v.rnd, f, v.args)
                h = e.reg.havoc(('subn', v.fn, v.rnd, r, f.n, tuple(x if isinstance(x, int) else x.get_id() for x in v.args)), d, u, f, v.args)
                # in the normal range the first rounding stands
                mn = F.bits_to_z3(1 << (f.p - 1), f.n) if f.n != 'l' else F.bits_to_z3((1 << 64) | (1 << 63), 'l')
                m.v = z3.If(z3.Or(z3.fpGEQ(z3.fpAbs(c), mn), z3.fpIsNaN(c)), c, h)
            return Tern(m.tok)
        if v.sort() != f.sort:
            c = conv_arg(e, v, f)
            if c is None:
                # exact wide value being subnormalised with its own ternary
                raise Unsupported('subnormalize of a wide value')
            m.v = c
        return Tern(m.tok) if not isinstance(t, Tern) else t
    ext['mpfr_subnormalize'] = subn
    @reg('mpfr_check_range')
    def _(e, a):
        pure(e)
        p, t, r = a[0], a[1], rndname(e, a[2])
        m = var(e, p); rng = rng_of(e); v = m.v
        if isinstance(v, App):
            if v.rng == rng: return t
            # value computed in another range, now clamped to the current one
            if isinstance(t, Tern) and t.n == m.tok and r == v.rnd and v.rng[0] <= rng[0] and v.rng[1] >= rng[1]:
                m.v = App(v.fn, v.args, v.rnd, v.prec, rng); return t
            raise Unsupported('check_range')
        if isinstance(v, ConstPending): raise Unsupported('check_range const')
        f = native(m.prec, rng)
        if f is not None:
            c = conv_arg(e, v, f)
            if c is not None: m.v = c; return t
            W = v.sort()
            if W.sbits() == m.prec:
                m.v = clamp(v, r, rng, W); return t
        raise Unsupported('check_range')

    def getfp(fmt):
        def g(e, a):
            m = var(e, a[0]); r = rndname(e, a[1]); f = FMT[fmt]
            v = m.v
            if v is None: raise Bad('get of unset mpfr variable')
            if isinstance(v, ConstPending): v = v.t
            if isinstance(v, App):
                nf = native(v.prec, v.rng)
                if nf is not None and nf.n == fmt and r == v.rnd and (r in 'DUZ' or v.fn == 'avg'):   # avg is exact below the normal range
                    return e.reg.R(v.fn, r, f, v.args)
                if nf is not None and r == v.rnd and r in 'DUZ' and is_sub(nf.sort, f):
                    raise Unsupported('get of pending value')
                v = materialize(e, m)
            if v.sort() == f.sort: return v
            if is_const_fp(v): return z3.simplify(z3.fpFPToFP(ZRM[r], v, f.sort))
            return e.reg.R('id', r, f, (v,))
        return g
    for n, k in (('d', 'd'), ('flt', 'f'), ('ld', 'l')): ext['mpfr_get_' + n] = getfp(k)
    def getint(signed):
        def g(e, a):
            x = gx(e, a[0]); r = rndname(e, a[1])
            i = z3.fpRoundToIntegral(ZRM[r], x)
            n = 64
            S = x.sort()
            if is_const_fp(x):
                v = F_num(z3.simplify(i))
                lo, hi = (-(1 << 63), (1 << 63) - 1) if signed else (0, (1 << 64) - 1)
                if v[0] == 'nan': return 0
                if v[0] == 'inf': return (lo if v[1] else hi) & ((1 << 64) - 1)
                q = 0 if v[0] == 'zero' else int(F.frac(v))
                return max(lo, min(hi, q)) & ((1 << 64) - 1)
            lo, hi = (z3.BitVecVal(1 << 63, 64), z3.BitVecVal((1 << 63) - 1, 64)) if signed else (z3.BitVecVal(0, 64), z3.BitVecVal((1 << 64) - 1, 64))
            W = z3.FPSort(max(S.ebits(), 11), max(S.sbits(), 66))
            iw = z3.fpFPToFP(z3.RNE(), i, W)
            hiw = z3.fpSignedToFP(z3.RNE(), hi, W) if signed else z3.fpUnsignedToFP(z3.RNE(), hi, W)
            low = z3.fpSignedToFP(z3.RNE(), lo, W) if signed else z3.fpUnsignedToFP(z3.RNE(), lo, W)
            conv = z3.fpToSBV(z3.RTZ(), i, z3.BitVecSort(64)) if signed else z3.fpToUBV(z3.RTZ(), i, z3.BitVecSort(64))
            return z3.If(z3.fpIsNaN(i), z3.BitVecVal(0, 64), z3.If(z3.fpGT(iw, hiw), hi, z3.If(z3.fpLT(iw, low), lo, conv)))
        return g
    ext['mpfr_get_si'] = getint(True); ext['mpfr_get_ui'] = getint(False)

    # generic operations
    def op(name, nargs, fn=None, kinds=None):
        fn = fn or name
        def g(e, a):
            xs = []
            for i in range(nargs):
                k = kinds[i] if kinds else 'm'
                v = a[1 + i]
                if k == 'm': xs.append(gxh(e, v) if name in ('add', 'sub') else gx(e, v))
                elif k == 'd': xs.append(v)
                elif k in ('si', 'ui', 'int'): xs.append(v)
            r = rndname(e, a[1 + nargs])
            return operation(e, fn, a[0], xs, r)
        ext['mpfr_' + name] = g
    for n in ('add', 'sub', 'mul', 'div', 'pow', 'atan2', 'hypot'): op(n, 2)
    for n in ('sqr', 'sqrt', 'exp', 'exp2', 'exp10', 'log', 'log2', 'log10', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh',
              'asinh', 'acosh', 'atanh', 'rint_ceil', 'rint_floor', 'rint_trunc', 'rint_round', 'rint_roundeven', 'rint', 'cbrt', 'expm1', 'log1p', 'rec_sqrt'): op(n, 1)
    op('fma', 3); op('fms', 3)
    def rint2(n):
        def g(e, a): return operation(e, 'rint_' + n, a[0], [gx(e, a[1])], 'N')
        ext['mpfr_' + n] = g
    for n in ('ceil', 'floor', 'trunc', 'round', 'roundeven'): rint2(n)
    @reg('mpfr_pow_si')
    def _(e, a):
        return operation(e, 'pown', a[0], [gx(e, a[1]), sint(a[2])], rndname(e, a[3]))
    @reg('mpfr_root', 'mpfr_rootn_ui')
    def _(e, a):
        if sint(a[2]) == 1: return assign(e, a[0], gx(e, a[1]), rndname(e, a[3]))
        return operation(e, 'root', a[0], [gx(e, a[1]), sint(a[2])], rndname(e, a[3]))
    def sint(v):
        return s64(v, 64) if isinstance(v, int) else v
    def withint(name, fn, signed=True, swap=False):
        def g(e, a):
            if swap: x, y = intterm(a[1], signed=signed), gx(e, a[2])
            else: x, y = gx(e, a[1]), intterm(a[2], signed=signed)
            return operation(e, fn, a[0], [small(x), small(y)], rndname(e, a[3]))
        ext['mpfr_' + name] = g
    def small(x):
        """narrow constants so that they fit every format when possible"""
        if is_const_fp(x):
            v = F_num(x)
            for n in 'fdl':
                try: return F.bits_to_z3(F.to_bits(v, n), n)
                except ValueError: pass
        return x
    for n in ('add', 'sub', 'mul', 'div'):
        withint(n + '_si', n); withint(n + '_ui', n, signed=False)
    for n in ('sub', 'div'):
        withint('ui_' + n, n, signed=False, swap=True); withint('si_' + n, n, swap=True)
    def withd(name, fn):
        def g(e, a): return operation(e, fn, a[0], [gx(e, a[1]), small(a[2])], rndname(e, a[3]))
        ext['mpfr_' + name] = g
    for n in ('add', 'sub', 'mul', 'div'): withd(n + '_d', n)
    @reg('mpfr_mul_2si', 'mpfr_mul_2ui', 'mpfr_div_2ui', 'mpfr_div_2si')
    def _(e, a): raise Unsupported('mul_2si')
    def mul2(sgn):
        def g(e, a):
            k = a[2]
            if not isinstance(k, int): raise Unsupported('symbolic scale')
            k = sgn * s64(k, 64)
            t = const_term(('num', 0, 1, k), 2, None)
            return operation(e, 'mul', a[0], [gx(e, a[1]), t], rndname(e, a[3]))
        return g
    ext['mpfr_mul_2si'] = ext['mpfr_mul_2ui'] = mul2(1); ext['mpfr_div_2si'] = ext['mpfr_div_2ui'] = mul2(-1)
    @reg('mpfr_const_pi')
    def _(e, a):
        pure(e); m = var(e, a[0]); v, t = F.call('const_pi', [], rndname(e, a[1]), m.prec, rng_of(e), sub=False)
        return setconst(e, a[0], v, t)
    @reg('mpfr_const_log2')
    def _(e, a):
        pure(e); m = var(e, a[0]); v, t = F.call('const_log2', [], rndname(e, a[1]), m.prec, rng_of(e), sub=False)
        return setconst(e, a[0], v, t)
    @reg('mpfr_neg')
    def _(e, a): 
        x = gx(e, a[1]); return assign(e, a[0], z3.simplify(z3.fpNeg(x)), rndname(e, a[2]))
    @reg('mpfr_abs')
    def _(e, a): 
        x = gx(e, a[1]); return assign(e, a[0], z3.simplify(z3.fpAbs(x)), rndname(e, a[2]))
    def minmax(isMin):
        def g(e, a):
            x, y = common([gx(e, a[1]), gx(e, a[2])]); r = rndname(e, a[3])
            lt = z3.fpLT(x, y) if isMin else z3.fpGT(x, y)
            z = z3.And(z3.fpIsZero(x), z3.fpIsZero(y))
            zz = z3.If(z3.fpIsNegative(x) if isMin else z3.fpIsPositive(x), x, y)
            t = z3.If(z3.fpIsNaN(x), y, z3.If(z3.fpIsNaN(y), x, z3.If(z, zz, z3.If(lt, x, y))))
            return assign(e, a[0], z3.simplify(t), r)
        return g
    ext['mpfr_min'] = minmax(True); ext['mpfr_max'] = minmax(False)
    @reg('mpfr_nextabove')
    def _(e, a): return nxt(e, a[0], True)
    @reg('mpfr_nextbelow')
    def _(e, a): return nxt(e, a[0], False)
    def nxt(e, p, up):
        m = var(e, p); f = native(m.prec, rng_of(e))
        if isinstance(m.v, App) and native(m.v.prec, m.v.rng) is f and f is not None and m.v.rnd in 'DU':
            # a normal result needs no second rounding: its value in the format is the value held
            c = e.reg.R(m.v.fn, m.v.rnd, f, m.v.args)
            if not impossible(e, z3.Or(z3.fpIsNaN(c), z3.fpIsInf(c), z3.fpIsZero(c), z3.fpLT(z3.fpAbs(c), minnormal(f.sort)))): raise Unsupported('nextabove of a result outside the normal range')
            x = c
        else: x = gx(e, p)
        if f is None or x.sort() != f.sort: raise Unsupported('nextabove')
        if impossible(e): raise Infeasible()
        # mpfr steps in the (not subnormalised) p-bit grid: only modelled for normal results
        setv(e, p, nextfp(x, up, f)); return None

    # comparisons
    def b32(c): return z3.simplify(z3.If(c, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
    def tri(lt, gt): return concbv(z3.If(lt, z3.BitVecVal(0xffffffff, 32), z3.If(gt, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))))
    def cmp(x, y):
        x, y = common([x, y]); return tri(z3.fpLT(x, y), z3.fpGT(x, y))
    @reg('mpfr_cmp', 'mpfr_cmp3')
    def _(e, a): return cmp(gx(e, a[0]), gx(e, a[1]))
    @reg('mpfr_cmp_si', 'mpfr_cmp_si_2exp')
    def _(e, a): return cmp(gx(e, a[0]), small(intterm(a[1])))
    @reg('mpfr_cmp_ui', 'mpfr_cmp_ui_2exp')
    def _(e, a): return cmp(gx(e, a[0]), small(intterm(a[1], signed=False)))
    @reg('mpfr_cmp_d', 'mpfr_cmp_ld')
    def _(e, a): return cmp(gx(e, a[0]), a[1])
    @reg('mpfr_sgn')
    def _(e, a):
        m = var(e, a[0])
        if isinstance(m.v, App):
            sg = e.reg.sign(m.v, native(m.v.prec, m.v.rng))
            if sg is not None: return sg
        x = gx(e, a[0]); z = z3.fpPlusZero(x.sort()); return tri(z3.fpLT(x, z), z3.fpGT(x, z))
    @reg('mpfr_cmpabs')
    def _(e, a): return cmp(z3.fpAbs(gx(e, a[0])), z3.fpAbs(gx(e, a[1])))
    def rel(name, f):
        def g(e, a):
            x, y = common([gx(e, a[0]), gx(e, a[1])]); return concbv(b32(f(x, y)))
        ext['mpfr_' + name] = g
    rel('lessequal_p', z3.fpLEQ); rel('less_p', z3.fpLT); rel('greater_p', z3.fpGT); rel('greaterequal_p', z3.fpGEQ); rel('equal_p', z3.fpEQ)
    rel('unordered_p', lambda x, y: z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))); rel('lessgreater_p', lambda x, y: z3.Or(z3.fpLT(x, y), z3.fpGT(x, y)))
    def pred(name, f):
        def g(e, a): return concbv(b32(f(gx(e, a[0]))))
        ext['mpfr_' + name] = g
    pred('nan_p', z3.fpIsNaN); pred('inf_p', z3.fpIsInf); pred('zero_p', z3.fpIsZero); pred('signbit', z3.fpIsNegative)
    pred('regular_p', lambda x: z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x), z3.fpIsZero(x))))
    pred('number_p', lambda x: z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x))))
    pred('integer_p', lambda x: z3.And(z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x))), z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), x), x)))
    @reg('mpfr_remquo')
    def _(e, a):
        # r, long* q, x, y, rnd
        from . import remquo
        return remquo.model(e, a, gx, setv, rndname)
    @reg('mpfr_get_prec')
    def _(e, a): return var(e, a[0]).prec
    return ext

def ir_PTR():
    from . import ir
    return ir.PTR
def xsum(ts):
    """canonical application for the exact sum of values and products"""
    if len(ts) == 1: return ('id', ts[0]) if len(ts[0]) == 1 else ('mul', ts[0])
    ts = sorted((tuple(sorted(t, key=lambda x: x.get_id())) for t in ts), key=lambda t: (len(t),) + tuple(x.get_id() for x in t))
    return 'xsum:' + ''.join(str(len(t)) for t in ts), tuple(x for t in ts for x in t)

def nextfp(x, up, f):
    """next IEEE value (python numeral or term)"""
    b = z3.fpToIEEEBV(x); n = b.size()
    one = z3.BitVecVal(1, n)
    neg = z3.fpIsNegative(x); zero = z3.fpIsZero(x)
    if up:
        t = z3.If(zero, z3.fpBVToFP(one, f.sort), z3.If(z3.And(z3.fpIsInf(x), z3.Not(neg)), x, z3.If(neg, z3.fpBVToFP(b - one, f.sort), z3.fpBVToFP(b + one, f.sort))))
    else:
        t = z3.If(zero, z3.fpNeg(z3.fpBVToFP(one, f.sort)), z3.If(z3.And(z3.fpIsInf(x), neg), x, z3.If(neg, z3.fpBVToFP(b + one, f.sort), z3.fpBVToFP(b - one, f.sort))))
    return z3.simplify(z3.If(z3.fpIsNaN(x), x, t))
