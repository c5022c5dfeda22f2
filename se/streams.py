"""Models of the C++ library parts behind text input and output: string streams, std::regex, strtol, GMP integers and rationals.

Bytes may be symbolic; lengths are concrete.  GMP values are exact linear polynomials in the digits of the text, so that correctly rounded
conversions of the same rational become the same application."""
import re, z3
try: import re._parser as rp, re._constants as rc
except ImportError: import sre_parse as rp, sre_constants as rc
from fractions import Fraction
from math import gcd
from . import ir, exec as X
from .exec import *
from . import prints as PR
I8, I16, I32, I64 = (ir.IntTy(k) for k in (8, 16, 32, 64))
BAD, EOFB, FAIL = 1, 2, 4

# ---------------------------------------------------------------- characters
def domains(e): return e.side.setdefault('dom', {})
def setdom(e, c, S): domains(e)[c.get_id()] = (c, frozenset(S))
def inset(c, S):
    """solver term: byte c is in the set"""
    rs = []; l = sorted(S)
    while l:
        j = 0
        while j + 1 < len(l) and l[j + 1] == l[j] + 1: j += 1
        rs.append((l[0], l[j])); l = l[j + 1:]
    return z3.Or(*[c == a if a == b else z3.And(z3.UGE(c, a), z3.ULE(c, b)) for a, b in rs])
def isin(e, c, S):
    """decide membership of a (possibly symbolic) byte, forking when both are possible"""
    if isinstance(c, int): return (c & 255) in S
    d = domains(e).get(c.get_id(), (c, frozenset(range(256))))[1]
    y = d & S
    if not y: return False
    if y == d: return True
    if e.pure: raise Impure()
    r = e.decide(inset(c, y))
    setdom(e, c, y if r else d - y); return r
DIG = frozenset(range(48, 58)); WS = frozenset(b' \t\n\v\f\r'); HEXD = DIG | frozenset(range(65, 71)) | frozenset(range(97, 103))
def base(c):
    """byte below a zero extension"""
    if isinstance(c, int) or not z3.is_app(c): return c
    while z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_ZERO_EXT,): c = c.arg(0)
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_CONCAT and c.num_args() == 2 and z3.is_bv_value(c.arg(0)) and c.arg(0).as_long() == 0: c = c.arg(1)
    return c
def byte(e, p):
    b = e.load(p, I8)
    if b is UNDEF: raise Bad('use of an uninitialised byte')
    if isinstance(b, bool): b = int(b)
    return b
def bytes_at(e, p, n): return [byte(e, Ptr(p.o, p.f + k)) for k in range(n)]
def cstr(e, p):
    out = []
    while True:
        b = byte(e, Ptr(p.o, p.f + len(out)))
        if isinstance(b, int):
            if b == 0: return out
        elif isin(e, b, frozenset([0])): return out
        out.append(b)
def stdstr(e, p):
    d = e.load(p, ir.PTR); n = e.load(Ptr(p.o, p.f + 8), I64)
    if not isinstance(n, int): raise Unsupported('symbolic string length')
    return d, n
def putstr(e, p, bs):
    """construct a std::string at p"""
    n = len(bs)
    if n > 15:
        o = e.alloc(n + 1, 'string', 'heap'); o.meta = 'new'; e.heap[id(o)] = o; d = Ptr(o, 0); e.store(Ptr(p.o, p.f + 16), n, I64)
    else: d = Ptr(p.o, p.f + 16)
    e.store(p, d, ir.PTR); e.store(Ptr(p.o, p.f + 8), n, I64)
    for i, b in enumerate(bs): e.store(Ptr(d.o, d.f + i), b, I8)
    e.store(Ptr(d.o, d.f + n), 0, I8)

def fresh_bytes(e, name, doms_):
    out = []
    for S in doms_:
        S = frozenset(S)
        if len(S) == 1: out.append(next(iter(S))); continue
        n = e.side.get('fb', 0); e.side['fb'] = n + 1
        b = z3.BitVec('%s%d' % (name, n), 8); e.assume(inset(b, S)); setdom(e, b, S); out.append(b)
    return out
# ---------------------------------------------------------------- exact rationals: polynomials in digits
class Poly:
    __slots__ = ('c', 't')          # constant, {term id: (term, coefficient)}
    def __init__(s, c=0, t=None): s.c = Fraction(c); s.t = t or {}
    def add(s, o, k=1):
        t = dict(s.t)
        for i, (x, q) in o.t.items():
            q = t[i][1] + q * k if i in t else q * k
            if q: t[i] = (x, q)
            else: t.pop(i, None)
        return Poly(s.c + k * o.c, t)
    def mul(s, k): return Poly(s.c * k, {i: (x, q * k) for i, (x, q) in s.t.items()} if k else {})
    def args(s):
        den = s.c.denominator
        for x, q in s.t.values(): den = den * q.denominator // gcd(den, q.denominator)
        out = [den, int(s.c * den)]
        for i in sorted(s.t, key=lambda i: str(s.t[i][0])): out += [int(s.t[i][1] * den), s.t[i][0]]
        return tuple(out)
def ofargs(a):
    p = Poly(Fraction(a[1], a[0]))
    for q, x in zip(a[2::2], a[3::2]):
        if isinstance(x, int): p.c += Fraction(q, a[0]) * x
        else: p = p.add(Poly(0, {x.get_id(): (x, Fraction(q, a[0]))}))
    return p
DMAX = 15
def cmpc(p, op, k=0):
    """solver term p op k (p polynomial, k rational)"""
    p = Poly(p.c - Fraction(k), p.t)
    a = p.args(); c0 = a[1]; cs = list(zip(a[2::2], a[3::2]))
    if not cs: return z3.BoolVal({'<': c0 < 0, '<=': c0 <= 0, '>': c0 > 0, '>=': c0 >= 0, '==': c0 == 0}[op])
    g = 0
    for q, _ in cs: g = gcd(g, q)
    # sum(q/g x) op -c0/g  with an integer left side
    r = Fraction(-c0, g)
    fl = r.numerator // r.denominator; ce = -((-r.numerator) // r.denominator)
    if op == '==' and fl != ce: return z3.BoolVal(False)
    k = {'<': ce, '<=': fl, '>': fl, '>=': ce, '==': fl}[op]
    cs = [(q // g, x) for q, x in cs]
    lo = sum(min(0, q * DMAX) for q, _ in cs); hi = sum(max(0, q * DMAX) for q, _ in cs)
    if op in ('<', '<='):
        if hi < k or (op == '<=' and hi <= k): return z3.BoolVal(True)
        if lo > k or (op == '<' and lo >= k): return z3.BoolVal(False)
    if op in ('>', '>='):
        if lo > k or (op == '>=' and lo >= k): return z3.BoolVal(True)
        if hi < k or (op == '>' and hi <= k): return z3.BoolVal(False)
    if op == '==' and not lo <= k <= hi: return z3.BoolVal(False)
    W = max(abs(lo), abs(hi), abs(k)).bit_length() + 2
    if W > 80 and len(cs) <= 4: return table(cs, op, k)
    W = max(W, 9)
    s = None
    for q, x in cs:
        t = z3.ZeroExt(W - x.size(), x) * z3.BitVecVal(q, W); s = t if s is None else s + t
    kv = z3.BitVecVal(k, W)
    return {'<': lambda: s < kv, '<=': lambda: s <= kv, '>': lambda: s > kv, '>=': lambda: s >= kv, '==': lambda: s == kv}[op]()
def table(cs, op, k):
    """the comparison of a wide linear form, by cases over its digits"""
    q, x = max(cs, key=lambda c: abs(c[0])); rest = [c for c in cs if c[1] is not x]
    if not rest:
        y = [v for v in range(DMAX + 1) if {'<': q * v < k, '<=': q * v <= k, '>': q * v > k, '>=': q * v >= k, '==': q * v == k}[op]]
        return inset(x, frozenset(y)) if y else z3.BoolVal(False)
    out = []
    lo = sum(min(0, c * DMAX) for c, _ in rest); hi = sum(max(0, c * DMAX) for c, _ in rest)
    for v in range(DMAX + 1):
        t = cmpc(Poly(q * v, {y.get_id(): (y, Fraction(c)) for c, y in rest}), op, k)
        if z3.is_false(t): continue
        out.append(x == v if z3.is_true(t) else z3.And(x == v, t))
    return z3.Or(*out) if out else z3.BoolVal(False)
def digit(e, b, bs):
    """value of byte b as a digit in the given base, or None"""
    if isin(e, b, frozenset(range(48, 48 + min(bs, 10)))): return Poly(b - 48) if isinstance(b, int) else dterm(b, 48, 0)
    if bs > 10:
        for o in (97, 65):
            if isin(e, b, frozenset(range(o, o + bs - 10))): return Poly(b - o + 10) if isinstance(b, int) else dterm(b, o, 10)
    return None
DT = {}
def dterm(b, o, k):
    key = (b.get_id(), o)
    if key not in DT:
        DT[key] = (b, z3.simplify(b - z3.BitVecVal(o - k, 8)))
    t = DT[key][1]; return Poly(0, {t.get_id(): (t, Fraction(1))})
def gmp_int(e, bs, bse):
    """mpz_set_str; None when rejected"""
    i = 0; n = len(bs)
    while i < n and isin(e, bs[i], WS): i += 1
    neg = False
    if i < n and isin(e, bs[i], frozenset(b'-')): neg = True; i += 1
    if bse == 0:
        bse = 10
        if i < n and isin(e, bs[i], frozenset(b'0')):
            bse = 8; 
            if i + 1 < n and isin(e, bs[i + 1], frozenset(b'xX')): bse = 16; i += 2
            elif i + 1 < n and isin(e, bs[i + 1], frozenset(b'bB')): bse = 2; i += 2
    if i >= n: return None
    v = Poly(); first = True
    while i < n:
        if not first and isin(e, bs[i], WS): i += 1; continue
        d = digit(e, bs[i], bse)
        if d is None: return None
        v = v.mul(bse).add(d); i += 1; first = False
    return v.mul(-1) if neg else v

def concretize(e, v, bits=64, lim=70):
    """concrete value of an integer, forking over its feasible values"""
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if z3.is_bool(v): v = bv(v, bits)
    t = z3.simplify(v)
    if z3.is_bv_value(t): return t.as_long()
    if e.pure: raise Impure()
    k = (tuple(str(d[0]) for d in e.prefix[:e.pos]), e.pos, t.get_id())
    cache = e.__dict__.setdefault('_ccache', {})
    if k not in cache:
        vals = []; e.solver_sync(); s = e.solver; s.push()
        while s.check() == z3.sat:
            x = s.model().eval(t, model_completion=True).as_long(); vals.append(x); s.add(t != x)
            if len(vals) > lim: s.pop(); raise Unsupported('symbolic integer with too many values')
        s.pop(); cache[k] = (sorted(vals), t)
    return e.choose([(x, t == x) for x in cache[k][0]])
# ---------------------------------------------------------------- regular expressions (ECMAScript subset, backtracking)
RX = {}
def rx_compile(pat, icase):
    k = (pat, icase)
    if k not in RX:
        t = rp.parse(pat, re.I if icase else 0)
        RX[k] = (t, t.state.groups - 1)
    return RX[k]
def fold(S): return frozenset(S) | frozenset(c + 32 for c in S if 65 <= c <= 90) | frozenset(c - 32 for c in S if 97 <= c <= 122)
CAT = {rc.CATEGORY_DIGIT: DIG, rc.CATEGORY_SPACE: WS, rc.CATEGORY_WORD: DIG | frozenset(range(65, 91)) | frozenset(range(97, 123)) | {95}}
def rx_match(e, bs, pat, icase):
    """captures [(start,end)|None]*(n+1), or None"""
    t, ng = rx_compile(pat, icase)
    N = len(bs); cp = [None] * (ng + 1)
    f = fold if icase else (lambda S: frozenset(S))
    ALL = frozenset(range(256))
    def cls(av):
        S = set(); neg = False
        for op, a in av:
            if op is rc.NEGATE: neg = True
            elif op is rc.LITERAL: S.add(a)
            elif op is rc.RANGE: S |= set(range(a[0], a[1] + 1))
            elif op is rc.CATEGORY: S |= CAT[a]
            else: raise Unsupported('regex class %s' % op)
        S = f(S); return ALL - S if neg else S
    def seq(items, i, pos, k):
        if i == len(items): return k(pos)
        op, av = items[i]
        nx = lambda p: seq(items, i + 1, p, k)
        if op is rc.LITERAL: return pos < N and isin(e, bs[pos], f({av})) and nx(pos + 1)
        if op is rc.NOT_LITERAL: return pos < N and isin(e, bs[pos], ALL - f({av})) and nx(pos + 1)
        if op is rc.IN: return pos < N and isin(e, bs[pos], cls(av)) and nx(pos + 1)
        if op is rc.ANY: return pos < N and isin(e, bs[pos], ALL - frozenset(b'\r\n')) and nx(pos + 1)
        if op is rc.BRANCH:
            for b in av[1]:
                if seq(list(b), 0, pos, nx): return True
            return False
        if op is rc.SUBPATTERN:
            g, _, _, sub = av
            if g is None: return seq(list(sub), 0, pos, nx)
            old = cp[g]
            def done(p):
                o2 = cp[g]; cp[g] = (pos, p)
                if nx(p): return True
                cp[g] = o2; return False
            if seq(list(sub), 0, pos, done): return True
            cp[g] = old; return False
        if op in (rc.MAX_REPEAT, rc.MIN_REPEAT):
            lo, hi, sub = av; sub = list(sub)
            def rep(n, p):
                def more(q):
                    if q == p and n >= lo: return False
                    return rep(n + 1, q)
                if op is rc.MAX_REPEAT:
                    if (hi is rc.MAXREPEAT or n < hi) and seq(sub, 0, p, more): return True
                    return n >= lo and nx(p)
                if n >= lo and nx(p): return True
                return (hi is rc.MAXREPEAT or n < hi) and seq(sub, 0, p, more)
            return rep(0, pos)
        raise Unsupported('regex %s' % op)
    if not seq(list(t), 0, 0, lambda p: p == N): return None
    cp[0] = (0, N); return cp

# ---------------------------------------------------------------- streams
class Stream:
    def __init__(s, kind): s.kind = kind; s.data = []; s.pos = 0; s.state = 0; s.flags = 0x1002; s.mask = 0; s.iw = {}; s.gcount = 0; s.out = []; s.alive = True; s.tok = None
def streams(e): return e.side.setdefault('streams', [])
def stream(e, p):
    if not isinstance(p, Ptr): raise Unsupported('stream pointer')
    for o, f, n, s in streams(e):
        if o is p.o and f <= p.f < f + n:
            if not s.alive: raise Bad('use of a destroyed stream')
            return s
    raise Unsupported('unknown stream')
def newstream(e, p, kind):
    if e.pure: raise Impure()
    n, k = {'i': (384, 120), 'o': (376, 112), 'io': (392, 128)}[kind]
    vt = e.alloc(64, 'vtable', 'vt'); vt.cells[16] = (8, k); e.store(p, Ptr(vt, 40), ir.PTR)
    if kind == 'io':
        v2 = e.alloc(64, 'vtable', 'vt'); v2.cells[16] = (8, k - 16); e.store(Ptr(p.o, p.f + 16), Ptr(v2, 40), ir.PTR)
    s = Stream(kind); streams(e).append((p.o, p.f, n, s)); return s
def setstate(e, s, st):
    s.state = st
    if st & s.mask:
        o = e.alloc(32, 'exception', 'exc'); raise Throw(Ptr(o, 0), '_ZTINSt8ios_base7failureB5cxx11E')
def sentry(e, s, noskip=True):
    if s.state == 0:
        if not noskip and s.flags & 0x1000:
            while s.pos < len(s.data) and isin(e, s.data[s.pos], WS): s.pos += 1
            if s.pos >= len(s.data): setstate(e, s, s.state | EOFB | FAIL); return False
        return True
    setstate(e, s, s.state | FAIL); return False
def zx(b): return b if isinstance(b, int) else z3.ZeroExt(24, b)
STR = 'NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
IS = '_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEE'; OS = '_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE'; SS = '_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE'
def mk():
    ext = {}
    def reg(*ns):
        def d(f):
            def g(e, a, f=f):
                if e.pure: raise Impure()
                return f(e, a)
            for n in ns: ext[n] = g
            return f
        return d
    def ctor(kind, data):
        def g(e, a):
            s = newstream(e, a[0], kind)
            if data: d, n = stdstr(e, a[1]); s.data = bytes_at(e, d, n)
        return g
    for pre, kind in ((IS, 'i'), (OS, 'o'), (SS, 'io')):
        reg(pre + 'C1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode', pre + 'C1ERKNS_12basic_stringIcS2_S3_EE')(ctor(kind, True))
        reg(pre + 'C1Ev', pre + 'C1ESt13_Ios_Openmode')(ctor(kind, False))
        @reg(pre + 'D1Ev')
        def _(e, a): stream(e, a[0]).alive = False
        @reg('_ZNK' + pre[3:] + '3strEv')
        def _(e, a):
            s = stream(e, a[1]); putstr(e, a[0], s.data[:0] + (s.out if s.kind != 'i' else s.data))
    B = '_ZNKSt9basic_iosIcSt11char_traitsIcEE'; Bm = '_ZNSt9basic_iosIcSt11char_traitsIcEE'
    reg(B + 'cvbEv')(lambda e, a: not (stream(e, a[0]).state & 5)); reg(B + 'ntEv', B + '4failEv')(lambda e, a: bool(stream(e, a[0]).state & 5))
    reg(B + '3eofEv')(lambda e, a: bool(stream(e, a[0]).state & 2)); reg(B + '4goodEv')(lambda e, a: stream(e, a[0]).state == 0); reg(B + '3badEv')(lambda e, a: bool(stream(e, a[0]).state & 1))
    reg(B + '7rdstateEv')(lambda e, a: stream(e, a[0]).state)
    def conci(e, v):
        if isinstance(v, int): return v
        raise Unsupported('symbolic stream state')
    reg('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE12_M_constructEmc')(lambda e, a: putstr(e, a[0], [a[2]] * concretize(e, a[1])))
    for n in ('C1', 'C2'): reg('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE' + n + 'EPKcRKS3_')(lambda e, a: putstr(e, a[0], cstr(e, a[1])))
    for c, b, sg in (('j', 32, False), ('i', 32, True), ('m', 64, False), ('l', 64, True), ('y', 64, False), ('x', 64, True)):
        reg('_ZNSt7__cxx119to_stringE' + c)(lambda e, a, b=b, sg=sg: putstr(e, a[0], str((lambda v: s64(v, b) if sg else v)(concretize(e, a[1], b))).encode()))
    reg(Bm + '5clearESt12_Ios_Iostate')(lambda e, a: setstate(e, stream(e, a[0]), conci(e, a[1])))
    @reg(Bm + '8setstateESt12_Ios_Iostate')
    def _(e, a): s = stream(e, a[0]); setstate(e, s, s.state | conci(e, a[1]))
    @reg(Bm + '10exceptionsESt12_Ios_Iostate')
    def _(e, a): s = stream(e, a[0]); s.mask = conci(e, a[1]); setstate(e, s, s.state)
    reg(B + '10exceptionsEv')(lambda e, a: stream(e, a[0]).mask)
    reg('_ZNKSt8ios_base5flagsEv')(lambda e, a: stream(e, a[0]).flags)
    @reg('_ZNSt8ios_base5flagsESt13_Ios_Fmtflags')
    def _(e, a): s = stream(e, a[0]); o = s.flags; s.flags = conci(e, a[1]); return o
    @reg('_ZNSt8ios_base4setfESt13_Ios_Fmtflags')
    def _(e, a): s = stream(e, a[0]); o = s.flags; s.flags |= conci(e, a[1]); return o
    @reg('_ZNSt8ios_base6unsetfESt13_Ios_Fmtflags')
    def _(e, a): s = stream(e, a[0]); s.flags &= ~conci(e, a[1])
    @reg('_ZNSt8ios_base5iwordEi')
    def _(e, a):
        s = stream(e, a[0]); i = a[1]
        if not isinstance(i, int): raise Unsupported('symbolic iword index')
        if i not in s.iw:
            o = e.alloc(8, 'iword%d' % i, 'iword'); o.cells[0] = (8, 0); s.iw[i] = o
        return Ptr(s.iw[i], 0)
    def xalloc(e, a):
        n = e.side.get('xalloc', 0); e.side['xalloc'] = n + 1; return n
    ext['_ZNSt8ios_base6xallocEv'] = xalloc
    ext['_ZNSt8ios_base4InitC1Ev'] = ext['_ZNSt8ios_base4InitD1Ev'] = lambda e, a: None
    @reg(Bm + '7copyfmtERKS2_')
    def _(e, a):
        s, o = stream(e, a[0]), stream(e, a[1]); s.flags = o.flags; s.mask = o.mask
        for i, q in o.iw.items():
            n = e.alloc(8, 'iword%d' % i, 'iword'); n.cells.update(q.cells); s.iw[i] = n
        return a[0]
    # input
    IB = '_ZNSi'
    @reg('_ZNSi4peekEv')
    def _(e, a):
        s = stream(e, a[0])
        if not sentry(e, s): return mask(32)
        if s.pos < len(s.data): return zx(s.data[s.pos])
        setstate(e, s, s.state | EOFB); return mask(32)
    @reg('_ZNSi3getEv')
    def _(e, a):
        s = stream(e, a[0]); s.gcount = 0
        if not sentry(e, s): return mask(32)
        if s.pos < len(s.data): s.pos += 1; s.gcount = 1; return zx(s.data[s.pos - 1])
        setstate(e, s, s.state | EOFB | FAIL); return mask(32)
    @reg('_ZNSi3getERc')
    def _(e, a):
        s = stream(e, a[0]); s.gcount = 0
        if not sentry(e, s): return a[0]
        if s.pos < len(s.data): s.pos += 1; s.gcount = 1; e.store(a[1], s.data[s.pos - 1], I8)
        else: setstate(e, s, s.state | EOFB | FAIL)
        return a[0]
    @reg('_ZNSi5ungetEv')
    def _(e, a):
        s = stream(e, a[0]); s.state &= ~EOFB
        if not sentry(e, s): return a[0]
        if s.pos: s.pos -= 1
        else: setstate(e, s, s.state | BAD)
        return a[0]
    @reg('_ZNSi7putbackEc')
    def _(e, a):
        s = stream(e, a[0]); s.state &= ~EOFB
        if not sentry(e, s): return a[0]
        if s.pos: s.pos -= 1
        else: setstate(e, s, s.state | BAD)
        return a[0]
    @reg('_ZNSi6ignoreEv')
    def _(e, a):
        s = stream(e, a[0]); s.gcount = 0
        if not sentry(e, s): return a[0]
        if s.pos < len(s.data): s.pos += 1; s.gcount = 1
        else: setstate(e, s, s.state | EOFB)
        return a[0]
    @reg('_ZNSi4readEPcl')
    def _(e, a):
        s = stream(e, a[0]); s.gcount = 0; n = conci(e, a[2])
        if not sentry(e, s): return a[0]
        k = min(n, len(s.data) - s.pos); p = e.concretize_ptr(a[1], 0)
        for j in range(k): e.store(Ptr(p.o, p.f + j), s.data[s.pos + j], I8)
        s.pos += k; s.gcount = k
        if k < n: setstate(e, s, s.state | EOFB | FAIL)
        return a[0]
    @reg('_ZNSirsEPFRSiS_E', '_ZNSirsEPFRSt8ios_baseS0_E')
    def _(e, a): e.call(a[1].n, [a[0]]); return a[0]
    @reg('_ZSt2wsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_')
    def _(e, a):
        s = stream(e, a[0])
        while s.pos < len(s.data) and isin(e, s.data[s.pos], WS): s.pos += 1
        if s.pos >= len(s.data): setstate(e, s, s.state | EOFB)
        return a[0]
    def getnum(bits, signed, ty):
        def g(e, a):
            s = stream(e, a[0])
            if not sentry(e, s, False): return a[0]
            if (s.flags & 0x4a) != 2: raise Unsupported('number base of a stream')
            neg = False
            if s.pos < len(s.data) and isin(e, s.data[s.pos], frozenset(b'+-')): neg = isin(e, s.data[s.pos], frozenset(b'-')); s.pos += 1
            ds = []
            while s.pos < len(s.data) and isin(e, s.data[s.pos], DIG): ds.append(s.data[s.pos]); s.pos += 1
            nd = len(ds); v = 0
            if all(isinstance(d, int) for d in ds):
                for d in ds: v = v * 10 + d - 48
            else:
                w = max(bits, 4 * nd) + 2; t = z3.BitVecVal(0, w)
                for d in ds: t = t * 10 + (z3.BitVecVal(d - 48, w) if isinstance(d, int) else z3.ZeroExt(w - 8, d - 48))
                t = z3.simplify(t); L = ((1 << (bits - 1)) if neg else (1 << (bits - 1)) - 1) if signed else mask(bits)
                if e.decide(z3.UGT(t, L)): v = L + 1
                else:
                    t = z3.Extract(bits - 1, 0, t); e.store(a[1], z3.simplify(-t if neg else t), ty)
                    if s.pos >= len(s.data): setstate(e, s, s.state | EOFB)
                    return a[0]
            st = EOFB if s.pos >= len(s.data) else 0
            lim = (1 << (bits - 1)) - 1 if signed else mask(bits)
            if nd == 0: v = 0; st |= FAIL
            elif v > lim + (1 if neg and signed else 0): v = ((-lim - 1 if neg else lim) if signed else mask(bits)); st |= FAIL
            elif neg: v = -v
            e.store(a[1], v & mask(bits), ty)
            if st: setstate(e, s, s.state | st)
            return a[0]
        return g
    for c, b, sg in (('j', 32, False), ('i', 32, True), ('m', 64, False), ('l', 64, True), ('t', 16, False)):
        reg('_ZNSirsER' + c, '_ZNSi10_M_extractI%sEERSiRT_' % c)(getnum(b, sg, ir.IntTy(b)))
    def cdigit(e, b):
        """concrete value of a digit"""
        if isinstance(b, int): return b - 48
        d = domains(e).get(b.get_id(), (b, DIG))[1] & DIG
        v = e.choose([(k, b == k) for k in sorted(d)]); setdom(e, b, {v}); return v - 48
    # output
    def put(e, p, bs):
        s = stream(e, p)
        if not sentry(e, s): return p
        s.out += list(bs); return p
    reg('_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE')(lambda e, a: put(e, a[0], bytes_at(e, *stdstr(e, a[1]))))
    reg('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc')(lambda e, a: put(e, a[0], cstr(e, a[1])))
    reg('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c', '_ZNSo3putEc')(lambda e, a: put(e, a[0], [a[1]]))
    @reg('_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l', '_ZNSo5writeEPKcl')
    def _(e, a): return put(e, a[0], bytes_at(e, e.concretize_ptr(a[1], 0), conci(e, a[2])))
    @reg('_ZNSolsEPFRSoS_E', '_ZNSolsEPFRSt8ios_baseS0_E')
    def _(e, a): e.call(a[1].n, [a[0]]); return a[0]
    def outint(bits, signed):
        def g(e, a):
            v = a[1]
            v = concretize(e, v, bits)
            s = stream(e, a[0])
            if (s.flags & 0x4a) not in (2, 0): raise Unsupported('number base of a stream')
            return put(e, a[0], str(s64(v, bits) if signed else v).encode())
        return g
    for c, b, sg in (('j', 32, False), ('i', 32, True), ('m', 64, False), ('l', 64, True)): reg('_ZNSolsE' + c)(outint(b, sg))
    # characters
    def ctest(S):
        def g(e, a):
            c = a[0]
            if isinstance(c, int): return 1 if c < 256 and c in S or (c > mask(31) and ((c & 255) in S and c != mask(32))) else 0
            return z3.simplify(z3.If(z3.And(z3.Or(z3.ULT(c, 256), False), inset(z3.Extract(7, 0, c), S)), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
        return g
    ext['isspace'] = ctest(WS); ext['isdigit'] = ctest(DIG); ext['isxdigit'] = ctest(HEXD); ext['isalpha'] = ctest(frozenset(range(65, 91)) | frozenset(range(97, 123)))
    ext['isalnum'] = ctest(DIG | frozenset(range(65, 91)) | frozenset(range(97, 123))); ext['isupper'] = ctest(frozenset(range(65, 91))); ext['islower'] = ctest(frozenset(range(97, 123)))
    def tolower(e, a, lo=65, k=32):
        c = a[0]
        if isinstance(c, int): return c + k & mask(32) if lo <= c < lo + 26 else c
        return z3.simplify(z3.If(z3.And(z3.UGE(c, lo), z3.ULE(c, lo + 25)), c + z3.BitVecVal(k & mask(32), 32), c))
    ext['tolower'] = tolower; ext['toupper'] = lambda e, a: tolower(e, a, 97, -32)
    def memchr(e, a):
        p = e.concretize_ptr(a[0], 0); n = conci(e, a[2]); c = a[1]
        if not isinstance(c, int):
            c = z3.simplify(z3.Extract(7, 0, c)); c = c.as_long() if z3.is_bv_value(c) else c
        for k in range(n):
            b = byte(e, Ptr(p.o, p.f + k))
            if isinstance(c, int): hit = isin(e, b, frozenset([c & 255]))
            elif isinstance(b, int): hit = isin(e, c, frozenset([b]))
            else: hit = e.decide(b == c)
            if hit: return Ptr(p.o, p.f + k)
        return NULL
    ext['memchr'] = memchr
    def memcmp(e, a):
        n = conci(e, a[2])
        if n == 0: return 0
        p, q = e.concretize_ptr(a[0], 0), e.concretize_ptr(a[1], 0)
        for k in range(n):
            x, y = byte(e, Ptr(p.o, p.f + k)), byte(e, Ptr(q.o, q.f + k))
            if isinstance(x, int) and isinstance(y, int):
                if x != y: return 1 if x > y else mask(32)
                continue
            if isinstance(y, int): same = isin(e, x, frozenset([y]))
            elif isinstance(x, int): same = isin(e, y, frozenset([x]))
            else: same = e.decide(x == y)
            if not same: return 1 if e.decide(z3.UGT(bv(x, 8), bv(y, 8))) else mask(32)
        return 0
    ext['memcmp'] = ext['bcmp'] = memcmp
    def strcmp(e, a):
        x, y = cstr(e, a[0]), cstr(e, a[1])
        for p, q in zip(x + [0], y + [0]):
            if isinstance(p, int) and isinstance(q, int):
                if p != q: return 1 if p > q else mask(32)
                continue
            s, c = (q, p) if isinstance(p, int) else (p, q)
            if not (isin(e, s, frozenset([c])) if isinstance(c, int) else e.decide(p == q)): return 1 if e.decide(z3.UGT(bv(p, 8), bv(q, 8))) else mask(32)
        return 0
    ext['strcmp'] = strcmp
    ext['strlen'] = lambda e, a: len(cstr(e, a[0]))
    def errno(e, a):
        if 'errno' not in e.side: o = e.alloc(4, 'errno', 'errno'); o.cells[0] = (4, 0); e.side['errno'] = o
        return Ptr(e.side['errno'], 0)
    ext['__errno_location'] = errno
    def strtol(e, a):
        bs = cstr(e, a[0]); i = 0
        while i < len(bs) and isin(e, bs[i], WS): i += 1
        neg = False
        if i < len(bs) and isin(e, bs[i], frozenset(b'+-')): neg = isin(e, bs[i], frozenset(b'-')); i += 1
        if conci(e, a[2]) != 10: raise Unsupported('strtol base')
        j = i; v = 0
        while i < len(bs) and isin(e, bs[i], DIG): v = v * 10 + cdigit(e, bs[i]); i += 1
        if isinstance(a[1], Ptr): e.store(a[1], Ptr(a[0].o, a[0].f + (i if i > j else 0)), ir.PTR)
        v = -v if neg else v
        if not -(1 << 63) <= v < 1 << 63:
            v = -(1 << 63) if v < 0 else (1 << 63) - 1; e.store(errno(e, []), 34, I32)
        return v & mask(64)
    for n in ('strtol', '__isoc23_strtol', 'strtoll', '__isoc23_strtoll'): reg(n)(strtol)
    ext['_ZNSt6localeC1Ev'] = ext['_ZNSt6localeD1Ev'] = ext['_ZNSt6localeC1ERKS_'] = lambda e, a: None
    ext['_ZSt24__throw_invalid_argumentPKc'] = lambda e, a: thr(e, '_ZTISt16invalid_argument')
    def thr(e, t):
        if e.pure: raise Impure()
        raise Throw(Ptr(e.alloc(16, 'exception', 'exc'), 0), t)
    ext['__cxa_guard_abort'] = lambda e, a: None
    # ------------------------------------------------------------ GMP
    def G(e): return e.side.setdefault('gmp', {})
    def key(p):
        if not isinstance(p, Ptr): raise Unsupported('gmp pointer')
        return (p.o.id, p.f)
    def val(e, p, kind):
        v = G(e).get(key(p))
        if v is None: raise Bad('use of an uninitialised GMP variable')
        if v[0] != kind: raise Bad('GMP variable of the other type')
        return v[1]
    def setg(e, p, kind, v): val(e, p, kind); G(e)[key(p)] = (kind, v)
    for k in 'zq':
        @reg('__gmp%s_init' % k)
        def _(e, a, k=k): G(e)[key(a[0])] = (k, Poly())
        @reg('__gmp%s_clear' % k)
        def _(e, a, k=k): val(e, a[0], k); del G(e)[key(a[0])]
        @reg('__gmp%s_set' % k)
        def _(e, a, k=k): setg(e, a[0], k, val(e, a[1], k))
        @reg('__gmp%s_add' % k)
        def _(e, a, k=k): setg(e, a[0], k, val(e, a[1], k).add(val(e, a[2], k)))
        @reg('__gmp%s_sub' % k)
        def _(e, a, k=k): setg(e, a[0], k, val(e, a[1], k).add(val(e, a[2], k), -1))
        @reg('__gmp%s_neg' % k)
        def _(e, a, k=k): setg(e, a[0], k, val(e, a[1], k).mul(-1))
        def prod(x, y):
            if not x.t: return y.mul(x.c)
            if not y.t: return x.mul(y.c)
            raise Unsupported('product of symbolic numbers')
        @reg('__gmp%s_mul' % k)
        def _(e, a, k=k, prod=prod): setg(e, a[0], k, prod(val(e, a[1], k), val(e, a[2], k)))
    @reg('__gmpz_set_str')
    def _(e, a):
        v = gmp_int(e, cstr(e, a[1]), s64(conci(e, a[2]), 32))
        if v is None: return mask(32)
        setg(e, a[0], 'z', v); return 0
    def zsi(e, x, n=64):
        if isinstance(x, int): return Poly(s64(x, n))
        raise Unsupported('symbolic GMP operand')
    @reg('__gmpz_set_si')
    def _(e, a): setg(e, a[0], 'z', zsi(e, a[1]))
    @reg('__gmpz_set_ui')
    def _(e, a): setg(e, a[0], 'z', Poly(conci(e, a[1])))
    @reg('__gmpz_mul_si')
    def _(e, a): setg(e, a[0], 'z', val(e, a[1], 'z').mul(zsi(e, a[2]).c))
    @reg('__gmpz_mul_ui')
    def _(e, a): setg(e, a[0], 'z', val(e, a[1], 'z').mul(conci(e, a[2])))
    @reg('__gmpz_add_ui')
    def _(e, a): setg(e, a[0], 'z', val(e, a[1], 'z').add(Poly(conci(e, a[2]))))
    @reg('__gmpz_ui_pow_ui')
    def _(e, a):
        b, n = conci(e, a[1]), conci(e, a[2])
        if n > 4000000: raise Unsupported('power with the exponent %d' % n)
        setg(e, a[0], 'z', Poly(b ** n))
    def divq(up):
        def g(e, a):
            v, d = val(e, a[1], 'z'), val(e, a[2], 'z')
            if d.t: raise Unsupported('division by a symbolic integer')
            if d.c == 0: raise Bad('division by zero')
            D = d.c
            if D < 0: v, D = v.mul(-1), -D
            if up: v = v.mul(-1)
            # floor(v / D): digits with a coefficient that is a multiple of D, and the rest
            hi = Poly(0, {i: (x, q) for i, (x, q) in v.t.items() if q % D == 0}); lo = Poly(v.c, {i: (x, q) for i, (x, q) in v.t.items() if q % D})
            c = lo.c; mn = c + sum(min(0, q * 9) for x, q in lo.t.values()); mx = c + sum(max(0, q * 9) for x, q in lo.t.values())
            k0, k1 = mn // D, mx // D
            k = e.choose([(k, z3.And(cmpc(lo, '>=', k * D), cmpc(lo, '<', (k + 1) * D))) for k in range(int(k0), int(k1) + 1)]) if k0 != k1 else k0
            r = hi.mul(Fraction(1, D)).add(Poly(k))
            setg(e, a[0], 'z', r.mul(-1) if up else r)
        return g
    reg('__gmpz_fdiv_q')(divq(False)); reg('__gmpz_cdiv_q')(divq(True))
    @reg('__gmpz_swap')
    def _(e, a): x, y = val(e, a[0], 'z'), val(e, a[1], 'z'); setg(e, a[0], 'z', y); setg(e, a[1], 'z', x)
    @reg('__gmpz_abs')
    def _(e, a): v = val(e, a[1], 'z'); setg(e, a[0], 'z', v.mul(-1) if sgn(e, v) < 0 else v)
    @reg('__gmpz_set')
    def _(e, a): setg(e, a[0], 'z', val(e, a[1], 'z'))
    @reg('__gmpz_init_set')
    def _(e, a): v = val(e, a[1], 'z'); G(e)[key(a[0])] = ('z', v)
    @reg('__gmpz_init_set_str')
    def _(e, a):
        v = gmp_int(e, cstr(e, a[1]), s64(conci(e, a[2]), 32)); G(e)[key(a[0])] = ('z', v or Poly())
        return 0 if v is not None else mask(32)
    def sgn(e, v):
        if not v.t: return (v.c > 0) - (v.c < 0)
        return e.choose([(-1, cmpc(v, '<')), (0, cmpc(v, '==')), (1, cmpc(v, '>'))])
    def decdigits(e, v):
        """decimal digits of an integer: fresh bytes tied to its value"""
        if not v.t: return str(int(v.c)).encode()
        n = sgn(e, v)
        if n == 0: return b'0'
        m = v.mul(n); mx = m.c + sum(max(0, q * 9) for x, q in m.t.values())
        L = len(str(int(mx)))
        k = e.choose([(k, z3.And(cmpc(m, '>=', 10 ** (k - 1)), cmpc(m, '<', 10 ** k))) for k in range(1, L + 1)])
        ds = fresh_bytes(e, 'dg', [DIG] * k); p = Poly()
        for b in ds: p = p.mul(10).add(dterm(b, 48, 0))
        e.assume(cmpc(p.add(m, -1), '=='))
        return list(b'-' if n < 0 else b'') + ds
    def decof(e, p):
        v = val(e, p, 'z'); c = e.side.setdefault('dec', {}); k = v.args()
        if str(k) not in c: c[str(k)] = decdigits(e, v)
        return list(c[str(k)])
    @reg('__gmpz_sizeinbase')
    def _(e, a):
        if conci(e, a[1]) != 10: raise Unsupported('mpz_sizeinbase')
        d = decof(e, a[0]); return len(d) - (isinstance(d[0], int) and d[0] == 45) + 1          # exact or one too big
    @reg('__gmpz_get_str')
    def _(e, a):
        if s64(conci(e, a[1]), 32) != 10: raise Unsupported('mpz_get_str')
        d = decof(e, a[2]); p = a[0]
        if p is NULL:
            o = e.alloc(len(d) + 1, 'mpz_get_str', 'heap'); o.meta = 'malloc'; e.heap[id(o)] = o; p = Ptr(o, 0)
        for i, b in enumerate(d + [0]): e.store(Ptr(p.o, p.f + i), b, I8)
        return p
    @reg('__gmpz_sgn')
    def _(e, a): return sgn(e, val(e, a[0], 'z')) & mask(32)
    @reg('__gmpq_set_z')
    def _(e, a): setg(e, a[0], 'q', val(e, a[1], 'z'))
    @reg('__gmpq_set_si', '__gmpq_set_ui')
    def _(e, a): setg(e, a[0], 'q', zsi(e, a[1]).mul(Fraction(1, conci(e, a[2]))))
    @reg('__gmpq_inv')
    def _(e, a):
        v = val(e, a[1], 'q')
        if v.t: raise Unsupported('reciprocal of a symbolic number')
        if v.c == 0: raise Bad('division by zero')
        setg(e, a[0], 'q', Poly(1 / v.c))
    @reg('__gmpq_div')
    def _(e, a):
        v = val(e, a[2], 'q')
        if v.t: raise Unsupported('division by a symbolic number')
        if v.c == 0: raise Bad('division by zero')
        setg(e, a[0], 'q', val(e, a[1], 'q').mul(1 / v.c))
    ext['__gmpq_canonicalize'] = lambda e, a: None
    @reg('__gmpq_set_str')
    def _(e, a):
        bs = cstr(e, a[1]); bse = s64(conci(e, a[2]), 32)
        k = None
        for i, b in enumerate(bs):
            if isin(e, b, frozenset(b'/')): k = i; break
        n = gmp_int(e, bs[:k] if k is not None else bs, bse)
        if n is None: return mask(32)
        if k is None: setg(e, a[0], 'q', n); return 0
        ds = bs[k + 1:]
        ds = [b if isinstance(b, int) else 48 + cdigit(e, b) if isin(e, b, DIG) else b for b in ds]
        d = gmp_int(e, ds, bse)
        if d is None: return mask(32)
        if d.t: raise Unsupported('symbolic denominator')
        if d.c == 0: raise Unsupported('zero denominator')
        setg(e, a[0], 'q', n.mul(1 / d.c)); return 0
    def cmp(k):
        def g(e, a):
            d = val(e, a[0], k).add(val(e, a[1], k), -1)
            if not d.t: return 0 if d.c == 0 else 1 if d.c > 0 else mask(32)
            return z3.If(cmpc(d, '<'), z3.BitVecVal(-1, 32), z3.If(cmpc(d, '=='), z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))
        return g
    for k in 'zq': reg('__gmp%s_cmp' % k)(cmp(k))
    reg('__gmpq_equal')(lambda e, a: (lambda d: (1 if d.c == 0 else 0) if not d.t else z3.If(cmpc(d, '=='), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))(val(e, a[0], 'q').add(val(e, a[1], 'q'), -1)))
    PR.install(reg)
    @reg('mpfr_set_q')
    def _(e, a):
        from . import mpfr as M
        v = val(e, a[1], 'q'); r = M.rndname(e, a[2]); m = M.var(e, a[0]); ar = v.args()
        return M.setv(e, a[0], M.App('lin', ar, r, m.prec, M.rng_of(e)))
    @reg('mpfr_set_z')
    def _(e, a):
        from . import mpfr as M
        v = val(e, a[1], 'z'); r = M.rndname(e, a[2]); m = M.var(e, a[0]); ar = v.args()
        return M.setv(e, a[0], M.App('lin', ar, r, m.prec, M.rng_of(e)))
    return ext

# ---------------------------------------------------------------- regex entry points, found by their demangled names
def rx_ctor(e, a):
    if e.pure: raise Impure()
    p = a[0]; fl = a[-1] if isinstance(a[-1], int) else 16
    e.side.setdefault('rx', {})[(p.o.id, p.f)] = (bytes(cstr(e, a[1])).decode('latin1'), bool(fl & 1))
def rx_ctor_s(e, a):
    if e.pure: raise Impure()
    p = a[0]; d, n = stdstr(e, a[1])
    e.side.setdefault('rx', {})[(p.o.id, p.f)] = (bytes(bytes_at(e, d, n)).decode('latin1'), bool(a[2] & 1))
def rx_run(e, a):
    if e.pure: raise Impure()
    d, n = stdstr(e, a[0]); d = e.concretize_ptr(d, 0); bs = bytes_at(e, d, n)
    p = a[2]; rx = e.side.get('rx', {}).get((p.o.id, p.f))
    if rx is None: raise Bad('use of an unconstructed regular expression')
    cp = rx_match(e, bs, *rx)
    m = a[1]
    old = e.load(m, ir.PTR)
    if isinstance(old, Ptr): raise Unsupported('match_results reused')
    ng = rx_compile(*rx)[1] + 1
    k = (ng if cp else 0) + 3
    o = e.alloc(24 * k, 'sub_matches', 'heap'); o.meta = 'new'; e.heap[id(o)] = o
    end = Ptr(d.o, d.f + n)
    def sub(i, x, y, mt): e.store(Ptr(o, 24 * i), x, ir.PTR); e.store(Ptr(o, 24 * i + 8), y, ir.PTR); e.store(Ptr(o, 24 * i + 16), int(mt), I8)
    for i in range(k): sub(i, end, end, False)
    if cp:
        for i, c in enumerate(cp):
            if c is not None: sub(i, Ptr(d.o, d.f + c[0]), Ptr(d.o, d.f + c[1]), True)
    e.store(m, Ptr(o, 0), ir.PTR); e.store(Ptr(m.o, m.f + 8), Ptr(o, 24 * k), ir.PTR); e.store(Ptr(m.o, m.f + 16), Ptr(o, 24 * k), ir.PTR)
    e.store(Ptr(m.o, m.f + 24), d, ir.PTR)
    return cp is not None
def rx_externs(m):
    from .summary import demap
    ext = {}
    for d, s in demap(m).items():
        if re.match(r'std::__cxx11::basic_regex<char, .*>::basic_regex\(char const\*, ', d): ext[s] = rx_ctor
        elif re.match(r'std::__cxx11::basic_regex<char, .*>::basic_regex\(std::.*basic_string.* const&, ', d): ext[s] = rx_ctor_s
        elif re.match(r'bool std::regex_match<.*>\(std::__cxx11::basic_string<.*> const&, std::__cxx11::match_results<.*>&, std::__cxx11::basic_regex<', d): ext[s] = rx_run
        elif d.startswith('std::__cxx11::basic_regex<char') and '::~basic_regex' in d: ext[s] = lambda e, a: None
    return ext
# ---------------------------------------------------------------- rounded linear forms
def round_frac(v, rnd, f):
    """correctly rounded IEEE value of a rational"""
    from .fmt import to_bits
    v = Fraction(v)
    if v == 0: return ('zero', 0)
    s = 1 if v < 0 else 0; a = abs(v)
    k = a.numerator.bit_length() - a.denominator.bit_length()
    if k > f.emax + 2: return ('inf', s) if rnd == 'N' or rnd == ('D' if s else 'U') else ('num', s, (1 << f.p) - 1, f.emax - f.p)
    if k < f.emin - 4: return ('num', s, 1, f.emin - 1) if rnd == ('D' if s else 'U') else ('zero', s)
    if Fraction(2) ** k > a: k -= 1           # 2^k <= a < 2^(k+1)
    q = max(k - f.p + 1, f.emin - 1)          # exponent of the unit in the last place
    u = a / (Fraction(2) ** q); m = u.numerator // u.denominator; r = u - m
    up = r > 0 and (rnd == ('D' if s else 'U') or (rnd == 'N' and (r > Fraction(1, 2) or r == Fraction(1, 2) and m & 1)))
    if up: m += 1
    if m == 0: return ('zero', s)
    if m * (Fraction(2) ** q) >= Fraction(2) ** f.emax:
        if rnd == 'N' or rnd == ('D' if s else 'U'): return ('inf', s)
        return ('num', s, (1 << f.p) - 1, f.emax - f.p)
    return ('num', s, m, q)
class Lin:
    @staticmethod
    def touch(reg, a): pass
    @staticmethod
    def single(reg, a):
        from . import fmt as F
        p = ofargs(a.args); f = a.f; S = f.sort; R = a.res; z = z3.fpPlusZero(S); out = []
        mxv = Fraction((1 << f.p) - 1) * Fraction(2) ** (f.emax - f.p)
        mx = F.bits_to_z3(F.to_bits(('num', 0, (1 << f.p) - 1, f.emax - f.p), f.n), f.n); mn = z3.fpNeg(mx)
        pos, neg, zz = cmpc(p, '>'), cmpc(p, '<'), cmpc(p, '==')
        ms = Fraction(2) ** (f.emin - 1); ts = F.bits_to_z3(F.to_bits(('num', 0, 1, f.emin - 1), f.n), f.n)
        tp, tn = z3.And(pos, cmpc(p, '<=', ms)), z3.And(neg, cmpc(p, '>=', -ms))
        for r, t in R.items():
            if r == 'U': out += [z3.Implies(tp, z3.fpEQ(t, ts)), z3.Implies(z3.And(tn, cmpc(p, '>', -ms)), z3.fpIsZero(t))]
            if r == 'D': out += [z3.Implies(tn, z3.fpEQ(t, z3.fpNeg(ts))), z3.Implies(z3.And(tp, cmpc(p, '<', ms)), z3.fpIsZero(t))]
            out.append(z3.Not(z3.fpIsNaN(t))); out.append(z3.Implies(zz, z3.fpIsZero(t)))
            out.append(z3.Implies(pos, z3.fpGT(t, z) if r == 'U' else z3.fpGEQ(t, z))); out.append(z3.Implies(neg, z3.fpLT(t, z) if r == 'D' else z3.fpLEQ(t, z)))
            big, sml = cmpc(p, '>', mxv), cmpc(p, '<', -mxv)
            if r in 'NU': out.append(z3.Implies(big, z3.fpGEQ(t, mx)))
            if r in 'ND': out.append(z3.Implies(sml, z3.fpLEQ(t, mn)))
            if r == 'D': out.append(z3.Implies(big, z3.fpEQ(t, mx)))
            if r == 'U': out.append(z3.Implies(sml, z3.fpEQ(t, mn)))
            if r == 'U': out += [z3.And(z3.fpIsInf(t), z3.fpIsPositive(t)) == big, z3.fpGEQ(t, mn)]
            if r == 'D': out += [z3.And(z3.fpIsInf(t), z3.fpIsNegative(t)) == sml, z3.fpLEQ(t, mx)]
            if r == 'N': out += [z3.Implies(z3.And(z3.Not(big), z3.Not(sml)), z3.Not(z3.fpIsInf(t)))]
        return out
    @staticmethod
    def rel(reg, a, b):
        d = ofargs(a.args).add(ofargs(b.args), -1)
        return reg.order(a, b, cmpc(d, '<='))
def pick(e, x):
    while isinstance(x, PIte):
        c = x.c
        if not isinstance(c, bool):
            if e.pure and not isinstance(conc(c), bool): raise Impure()
            c = e.decide(c)
        x = x.a if c else x.b
    return x
def install():
    from . import apps
    apps.EXTRA['lin'] = Lin
    def w(f):
        def g(e, a): return f(e, [pick(e, x) if isinstance(x, PIte) else x for x in a])
        return g
    return {k: w(f) for k, f in mk().items()}
