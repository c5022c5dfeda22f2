"""Printed numbers: mpfr_asprintf and friends.

The text of a number is abstract: sign, infinities and the layout demanded by the conversion are exact, the digits are symbolic bytes; equal requests
give equal texts, and two texts of one kind are ordered like the numbers and the rounding directions they stand for."""
import re, z3
from . import ir, exec as X, fmt as F
from .exec import *
I8 = ir.IntTy(8)
UP = 'FEGA'
LENS = {'f': (1, 2), 'e': (0, 1, -2), 'g': (1, 4), 'a': (6, 11)}       # integer digits, exponents, lengths
class Print:
    def __init__(s, conv, prec, rnd, val, text, num, x): s.conv = conv; s.prec = prec; s.rnd = rnd; s.val = val; s.text = text; s.num = num; s.x = x
def parse(fs):
    """[bytes | (flags, width, prec, rnd character, conv)]"""
    out = []; pos = 0
    for m in re.finditer(r'%(?:%|([-+ #0\']*)([0-9]*)(?:\.([0-9]*))?R([*UDYZN]?)([aAbeEfFgG]))', fs):
        out.append(fs[pos:m.start()]); pos = m.end()
        if m.group(5) is None: out.append('%'); continue
        out.append((m.group(1), int(m.group(2) or 0), None if m.group(3) is None else int(m.group(3) or 0), m.group(4), m.group(5)))
    out.append(fs[pos:])
    if any(isinstance(x, str) and '%' in x and x != '%' for x in out): raise Unsupported('format ' + fs)
    return out
def norm(conv, prec):
    c = conv.lower()
    if c in 'feg' and prec is None: prec = 6
    if c == 'g' and prec == 0: prec = 1
    return prec
def real(v, conv, prec, rnd):
    """what libmpfr prints for a python number"""
    import ctypes
    L = F.lib(); p = max(2, v[2].bit_length()) if v[0] == 'num' else 2
    x = F.MP(p).set(v); buf = ctypes.create_string_buffer(20000)
    fm = '%' + ('' if prec is None else '.%d' % prec) + 'R*' + conv
    L.mpfr_snprintf(buf, ctypes.c_size_t(20000), fm.encode(), ctypes.c_int(F.RND[rnd]), ctypes.c_void_p(x.p))
    return buf.value.decode()
def text(e, conv, prec, rnd, v):
    """-> Print, creating it on first use"""
    from . import streams as SR
    ps = e.side.setdefault('prints', [])
    for q in ps:
        if (q.conv, q.prec, q.rnd) == (conv, prec, rnd) and q.val.eq(v): return q
    c = conv.lower(); up = conv in UP
    q = Print(conv, prec, rnd, v, None, None, 0)
    cv_ = conc_fp(v)
    S = v.sort()
    k = e.choose([('n', z3.fpIsNaN(v)), ('i', z3.fpIsInf(v)), ('z', z3.fpIsZero(v)), ('f', z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v), z3.fpIsZero(v))))])
    if k == 'n': q.text = list(b'NAN' if up else b'nan'); ps.append(q); return q
    neg = e.decide(z3.fpIsNegative(v)); sg = [45] if neg else []
    if k == 'i': q.text = sg + list(b'INF' if up else b'inf'); ps.append(q); return q
    Poly = SR.Poly
    def poly(bs):
        p = Poly()
        for b in bs: p = p.mul(10).add(Poly(b - 48) if isinstance(b, int) else SR.dterm(b, 48, 0))
        return p.mul(-1) if neg else p
    D = SR.DIG; N = D - {48}
    if k == 'z':
        s = real(('zero', 1 if neg else 0), conv, prec, rnd); q.text = list(s.encode()); q.num = Poly() if c in 'fe' else None; q.x = -prec if c in 'fe' else 0
        ps.append(q); order(e, ps, q); return q
    if c == 'f':
        n = e.choose([(n, z3.BoolVal(True)) for n in LENS['f']])
        ds = SR.fresh_bytes(e, 'pd', ([N] + [D] * (n - 1) if n > 1 else [D]) + [D] * prec)
        q.text = sg + ds[:n] + ([46] if prec else []) + ds[n:]; q.num = poly(ds); q.x = -prec
    elif c == 'e':
        x = e.choose([(x, z3.BoolVal(True)) for x in LENS['e']])
        ds = SR.fresh_bytes(e, 'pd', [N] + [D] * prec)
        q.text = sg + ds[:1] + ([46] if prec else []) + ds[1:] + list(('%s%s%02d' % (conv, '-' if x < 0 else '+', abs(x))).encode()); q.num = poly(ds); q.x = x - prec
    else:
        n = e.choose([(n, z3.BoolVal(True)) for n in LENS[c]])
        cs = b'0123456789.+-' + (b'ABCDEFXP' if up else b'abcdefxp')
        q.text = sg + SR.fresh_bytes(e, 'pg', [D] + [frozenset(cs)] * (n - 1))
    ps.append(q); order(e, ps, q); return q
def conc_fp(v): return None
RO = {'D': 0, 'Z': 1, 'N': 1, 'U': 2}
def order(e, ps, q):
    """rounded decimals are monotone in the number and the rounding direction"""
    from . import streams as SR
    if q.num is None: return
    from fractions import Fraction
    def ge(a, b): return SR.cmpc(a.num.mul(Fraction(10) ** a.x).add(b.num.mul(Fraction(10) ** b.x), -1), '>=')
    for p in ps:
        if p is q or p.num is None or p.conv != q.conv or p.prec != q.prec or p.val.sort() != q.val.sort(): continue
        for a, b in ((p, q), (q, p)):
            if (a.rnd, b.rnd) in (('D', 'D'), ('U', 'U'), ('N', 'N'), ('D', 'U'), ('D', 'N'), ('N', 'U')):
                e.assume(z3.Or(z3.Not(z3.fpLEQ(a.val, b.val)), ge(b, a)))
def formatted(e, a, i):
    """text of a formatted output call with the format at argument i"""
    from . import streams as SR, mpfr as M
    fs = SR.cstr(e, a[i]); i += 1
    fs = [SR.concretize(e, b, 8) for b in fs]
    out = []
    for it in parse(bytes(fs).decode('latin1')):
        if isinstance(it, str): out += list(it.encode('latin1')); continue
        fl, w, prec, r, conv = it
        if fl.strip('-'): raise Unsupported('format flags ' + fl)
        if conv == 'b': raise Unsupported('binary output')
        if r == '*': rnd = M.rndname(e, a[i]); i += 1
        else: rnd = {'': 'N', 'Y': 'A'}.get(r, r)
        if i >= len(a) or a[i] is None: raise Bad('missing argument of a formatted output function')
        v = M.get_x(e, a[i]); i += 1
        q = text(e, conv, norm(conv, prec), rnd, v)
        pad = [32] * max(0, w - len(q.text))
        out += list(q.text) + pad if '-' in fl else pad + list(q.text)
    return out
def install(reg):
    def put(e, p, bs):
        for j, b in enumerate(bs): e.store(Ptr(p.o, p.f + j), b, I8)
    @reg('mpfr_asprintf', '__gmpfr_asprintf')
    def _(e, a):
        t = formatted(e, a, 1)
        o = e.alloc(len(t) + 1, 'mpfr_asprintf', 'heap'); o.meta = 'mpfr_str'; e.heap[id(o)] = o
        put(e, Ptr(o, 0), t + [0]); e.store(a[0], Ptr(o, 0), ir.PTR); return len(t)
    @reg('mpfr_sprintf')
    def _(e, a): t = formatted(e, a, 1); p = e.concretize_ptr(a[0], 0); put(e, p, t + [0]); return len(t)
    @reg('mpfr_snprintf')
    def _(e, a):
        t = formatted(e, a, 2)
        if not isinstance(a[1], int): raise Unsupported('symbolic buffer size')
        if a[1]: p = e.concretize_ptr(a[0], 0); put(e, p, t[:a[1] - 1] + [0])
        return len(t)
    @reg('mpfr_free_str')
    def _(e, a):
        p = a[0]
        if not isinstance(p, Ptr) or p.o.meta != 'mpfr_str' or p.f != 0: raise Bad('mpfr_free_str of a foreign pointer')
        if not p.o.alive: raise Bad('double free')
        p.o.alive = False
