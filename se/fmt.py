"""IEEE formats and exact evaluation of MPFR functions on constants (libmpfr through ctypes)."""
import ctypes, ctypes.util, z3
from fractions import Fraction
SORT = {'f': z3.FPSort(8, 24), 'd': z3.FPSort(11, 53), 'l': z3.FPSort(15, 64)}
class Fmt:
    def __init__(s, n, eb, p):
        s.n = n; s.eb = eb; s.p = p; s.sort = SORT[n]
        s.emax = 1 << (eb - 1); s.emin = 3 - s.emax - p + 1     # mpfr_var's EMIN: denorm exponent
        s.c = {'f': 'float', 'd': 'double', 'l': 'long double'}[n]
        s.bits = {'f': 32, 'd': 64, 'l': 80}[n]
FMT = {'f': Fmt('f', 8, 24), 'd': Fmt('d', 11, 53), 'l': Fmt('l', 15, 64)}
RND = {'N': 0, 'Z': 1, 'U': 2, 'D': 3, 'A': 4}
RNDI = {v: k for k, v in RND.items()}
ZRM = {'N': z3.RNE(), 'Z': z3.RTZ(), 'U': z3.RTP(), 'D': z3.RTN(), 'A': None}

def fmt_of_sort(s):
    for f in FMT.values():
        if s.ebits() == f.eb and s.sbits() == f.p: return f
    return None

# ---- python side numbers: 'nan', ('inf',sign), ('zero',sign), ('num', sign, mant, exp)  value = mant * 2^exp
NAN = ('nan',)
def from_bits(b, fmt):
    f = FMT[fmt]
    if fmt == 'l':
        s = b >> 79; e = (b >> 64) & 0x7fff; m = b & ((1 << 64) - 1)
        if e == 0x7fff: return ('inf', s) if (m & ((1 << 63) - 1)) == 0 else NAN
        if m == 0: return ('zero', s)
        return ('num', s, m, max(e, 1) - 16383 - 63)
    mb = f.p - 1
    s = b >> (f.bits - 1); e = (b >> mb) & ((1 << f.eb) - 1); m = b & ((1 << mb) - 1)
    if e == (1 << f.eb) - 1: return ('inf', s) if m == 0 else NAN
    if e == 0:
        if m == 0: return ('zero', s)
        return ('num', s, m, 2 - f.emax - mb)
    return ('num', s, m | (1 << mb), e + 1 - f.emax - mb)
def to_bits(v, fmt):
    """v must be representable"""
    f = FMT[fmt]; mb = f.p - 1
    top = (1 << f.eb) - 1
    def pack(s, e, m):
        if fmt == 'l':
            return (s << 79) | (e << 64) | (m | ((1 << 63) if e else 0))
        return (s << (f.bits - 1)) | (e << mb) | m
    if v[0] == 'nan': return pack(0, top, 1 << (mb - 1))
    if v[0] == 'inf': return pack(v[1], top, 0)
    if v[0] == 'zero': return pack(v[1], 0, 0)
    _, s, m, e = v
    while m.bit_length() > f.p:
        if m & 1: raise ValueError('not representable')
        m >>= 1; e += 1
    while m.bit_length() < f.p: m <<= 1; e -= 1
    be = e + mb + f.emax - 1
    if be >= top: raise ValueError('overflow')
    if be <= 0:
        sh = 1 - be
        if m & ((1 << sh) - 1): raise ValueError('not representable (sub)')
        return pack(s, 0, m >> sh)
    return pack(s, be, m & ((1 << mb) - 1))
def frac(v):
    _, s, m, e = v
    r = Fraction(m) * (Fraction(2) ** e)
    return -r if s else r

def bits_to_z3(b, fmt):
    f = FMT[fmt]
    if fmt == 'l':
        b = ((b >> 64) << 63) | (b & ((1 << 63) - 1))
    n = 1 + f.eb + f.p - 1
    return z3.simplify(z3.fpFP(z3.BitVecVal(b >> (n - 1), 1), z3.BitVecVal((b >> (f.p - 1)) & ((1 << f.eb) - 1), f.eb), z3.BitVecVal(b & ((1 << (f.p - 1)) - 1), f.p - 1)))
def z3_to_bits(v):
    """numeral -> (bits, fmt)"""
    f = fmt_of_sort(v.sort())
    if v.isNaN(): return to_bits(NAN, f.n)
    sgn = 1 if v.sign() else 0
    if v.isInf(): return to_bits(('inf', sgn), f.n)
    if v.isZero(): return to_bits(('zero', sgn), f.n)
    m = v.significand_as_long(); e = v.exponent_as_long(True)
    mb = f.p - 1
    if fmt_l(f): 
        return (sgn << 79) | (e << 64) | (m | ((1 << 63) if e else 0))
    return (sgn << (f.bits - 1)) | (e << mb) | m
def fmt_l(f): return f.n == 'l'

# ---- libmpfr
_lib = None
class MpfrT(ctypes.Structure):
    _fields_ = [('prec', ctypes.c_long), ('sign', ctypes.c_int), ('exp', ctypes.c_long), ('d', ctypes.c_void_p)]
def lib():
    global _lib
    if _lib is None:
        ctypes.CDLL('libgmp.so.10', mode=ctypes.RTLD_GLOBAL)
        _lib = ctypes.CDLL('libmpfr.so.6')
        _lib.mpfr_get_str.restype = ctypes.c_void_p
        _lib.mpfr_set_emin.argtypes = [ctypes.c_long]; _lib.mpfr_set_emax.argtypes = [ctypes.c_long]
        _lib.mpfr_init2.argtypes = [ctypes.c_void_p, ctypes.c_long]
        _lib.mpfr_get_exp.restype = ctypes.c_long
        for n in ('mpfr_clear', 'mpfr_nan_p', 'mpfr_inf_p', 'mpfr_zero_p', 'mpfr_signbit', 'mpfr_set_nan', 'mpfr_get_exp'):
            getattr(_lib, n).argtypes = [ctypes.c_void_p]
        _lib.mpfr_set_inf.argtypes = [ctypes.c_void_p, ctypes.c_int]; _lib.mpfr_set_zero.argtypes = [ctypes.c_void_p, ctypes.c_int]
        _lib.mpfr_free_str.argtypes = [ctypes.c_void_p]
        _lib.mpfr_set_str.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int, ctypes.c_int]
        _lib.mpfr_get_str.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_long), ctypes.c_int, ctypes.c_size_t, ctypes.c_void_p, ctypes.c_int]
    return _lib
class MP:
    """a libmpfr variable"""
    def __init__(s, prec):
        s.t = MpfrT(); s.p = ctypes.addressof(s.t); lib().mpfr_init2(s.p, prec)
    def __del__(s):
        try: lib().mpfr_clear(s.p)
        except Exception: pass
    def set(s, v):
        L = lib()
        if v[0] == 'nan': L.mpfr_set_nan(s.p)
        elif v[0] == 'inf': L.mpfr_set_inf(s.p, -1 if v[1] else 1)
        elif v[0] == 'zero': L.mpfr_set_zero(s.p, -1 if v[1] else 1)
        else:
            _, sg, m, e = v
            # hex mantissa with binary exponent
            st = ('-' if sg else '') + '%xp%d' % (m, e)
            if L.mpfr_set_str(s.p, st.encode(), 16, 0): raise ValueError(st)
        return s
    def get(s):
        L = lib()
        if L.mpfr_nan_p(s.p): return NAN
        sg = 1 if L.mpfr_signbit(s.p) else 0
        if L.mpfr_inf_p(s.p): return ('inf', sg)
        if L.mpfr_zero_p(s.p): return ('zero', sg)
        e = ctypes.c_long()
        q = L.mpfr_get_str(None, ctypes.byref(e), 16, 0, s.p, 0)
        st = ctypes.string_at(q).decode(); L.mpfr_free_str(q)
        if st[0] == '-': st = st[1:]
        return ('num', sg, int(st, 16), 4 * (e.value - len(st)))
WIDE = (-(1 << 60), 1 << 60)
def setrange(emin, emax):
    L = lib(); L.mpfr_set_emin(emin); L.mpfr_set_emax(emax)

def call(fn, args, rnd, prec, rng, sub=True):
    """evaluate mpfr function fn on python numbers/ints; returns (value, ternary)"""
    L = lib()
    setrange(*WIDE)
    vs = []
    for a in args:
        if isinstance(a, tuple):
            p = 64 if a[0] != 'num' else max(2, a[2].bit_length())
            vs.append(MP(max(p, 2)).set(a))
        else: vs.append(a)
    r = MP(prec)
    setrange(*rng)
    ca = [ctypes.c_void_p(r.p)] + [ctypes.c_void_p(v.p) if isinstance(v, MP) else ctypes.c_long(v) for v in vs]
    f = getattr(L, 'mpfr_' + fn)
    f.restype = ctypes.c_int
    if fn == 'sum':
        raise NotImplementedError
    t = f(*(ca + [ctypes.c_int(RND[rnd])]))
    if fn == 'set': t = L.mpfr_check_range(ctypes.c_void_p(r.p), ctypes.c_int(t), ctypes.c_int(RND[rnd]))
    if sub: t = L.mpfr_subnormalize(ctypes.c_void_p(r.p), ctypes.c_int(t), ctypes.c_int(RND[rnd]))
    out = r.get()
    setrange(*WIDE)
    return out, t

MPNAME = {'id': 'set', 'pown': 'pow_si', 'root': 'rootn_ui'}
def eval_ieee(fn, args, rnd, fmt):
    """correctly rounded IEEE result (python number) of fn on python numbers"""
    f = FMT[fmt]
    if fn == 'sgn4':
        if any(a[0] in ('nan', 'inf') for a in args): return NAN
        v = sum((frac(a) if a[0] == 'num' else 0) for a in args)
        return ('zero', 0) if v == 0 else ('num', 1 if v < 0 else 0, 1, 0)
    if fn == 'avg':
        x, y = args
        if x[0] == 'num' and y[0] == 'num':
            v = (frac(x) + frac(y)) / 2
            if v == 0: return ('zero', 1 if rnd == 'D' else 0)
            n, d = abs(v.numerator), v.denominator
            return call('set', [('num', 1 if v < 0 else 0, n, -(d.bit_length() - 1))], rnd, f.p, (f.emin, f.emax))[0]
        if x[0] == 'num' or y[0] == 'num':
            o = y if x[0] == 'num' else x
            if o[0] == 'zero': 
                q = x if x[0] == 'num' else y
                return call('set', [('num', q[1], q[2], q[3] - 1)], rnd, f.p, (f.emin, f.emax))[0]
            return o
        return call('add', args, rnd, f.p, (f.emin, f.emax))[0]
    if fn == 'invroot':
        x, k = args; k &= (1 << 64) - 1
        if x[0] == 'nan' or k == 0 or x[0] == 'num' and x[1] and not k & 1: return NAN
        if x[0] == 'zero': return ('inf', x[1] if k & 1 else 0)
        if x[0] == 'inf': return NAN if x[1] and not k & 1 else ('zero', x[1])
        w = 4 * f.p
        while True:
            lo, hi = [call('ui_div', [1, call('rootn_ui', [x, k], a, w, WIDE, sub=False)[0]], b, w, WIDE, sub=False)[0] for a, b in (('U', 'D'), ('D', 'U'))]
            a, b = [call('set', [v], rnd, f.p, (f.emin, f.emax))[0] for v in (lo, hi)]
            if a == b: return a
            w *= 2
    if fn == 'lin':
        from .streams import round_frac
        v = Fraction(args[1], args[0])
        for q, x in zip(args[2::2], args[3::2]): v += Fraction(q, args[0]) * x
        return round_frac(v, rnd, f)
    if fn.startswith('xsum:'):
        it = iter(args); v = Fraction(0); infs = set()
        for k in fn[5:]:
            t = [next(it) for _ in range(int(k))]
            if any(x[0] == 'nan' for x in t): return NAN
            if any(x[0] == 'inf' for x in t):
                if any(x[0] == 'zero' for x in t): return NAN
                infs.add(sum(x[1] for x in t) & 1); continue
            w = Fraction(1)
            for x in t: w *= 0 if x[0] == 'zero' else frac(x)
            v += w
        if len(infs) == 2: return NAN
        if infs: return ('inf', infs.pop())
        if v == 0: return ('zero', 1 if rnd == 'D' else 0)
        n, d = abs(v.numerator), v.denominator
        return call('set', [('num', 1 if v < 0 else 0, n, -(d.bit_length() - 1))], rnd, f.p, (f.emin, f.emax))[0]
    if fn in ('par_s', 'par_c', 'kd_s', 'kd_c', 'kd_t'):
        from . import trig
        return trig.evalt(fn, args)
    if fn.startswith('c:'):                      # constants such as pi * k
        return const_ieee(fn[2:], rnd, f)
    return call(MPNAME.get(fn, fn), args, rnd, f.p, (f.emin, f.emax))[0]
