"""Front-end classes: every API form must reach the right flavor function with the right operands in order and return its result.
The flavor is a template parameter of the library; here it is instantiated with a recording flavor whose results are
symbolic tokens of (function, result type, operands)."""
from .gen import *
TCN = {'f': 1, 'd': 2, 'l': 3}
M64 = (1 << 64) - 1
UN = 'pos neg recip sqr sqrt exp exp2 exp10 log log2 log10 sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh sign ceil floor trunc round_ties_to_even round_ties_to_away abs'.split()
BI = 'add sub mul div pow atan2 min max cancel_plus cancel_minus intersection convex_hull'.split()
REV1 = 'sqr_rev abs_rev cosh_rev sin_rev cos_rev tan_rev'.split()
B1 = 'is_empty is_entire is_common_interval is_singleton'.split()
B2 = 'equal subset less precedes interior strictly_less strictly_precedes disjoint'.split()
SWAP = {'superset': 'subset', 'greater': 'less', 'succeeds': 'precedes', 'contains_interior': 'interior', 'strictly_greater': 'strictly_less', 'strictly_succeeds': 'strictly_precedes'}
NUM = 'inf sup mid rad wid mag mig'.split()
OPER = {'pos': '+', 'neg': '-', 'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}
ALLF = UN + BI + ['fma', 'pown', 'pown_rev', 'mul_rev', 'mul_rev_to_pair'] + REV1 + B1 + B2 + NUM + ['mid_rad', 'is_member', 'overlap', 'is_nai', 'decoration_part', 'empty', 'empty_dec', 'entire', 'entire_dec', 'nai',
        'nums_to_interval', 'nums_to_decorated_interval', 'nums_dec_to_decorated_interval', 'text_to_interval', 'text_to_decorated_interval', 'convert_type', 'interval_part', 'new_dec', 'set_dec', 'out', 'in', 'copy']
FID = {f: i + 1 for i, f in enumerate(ALLF)}
def prelude():
    s = r'''
namespace wr { typedef unsigned long u64; using std::pair;
template<typename T> struct TC; template<> struct TC<float> { enum { c = 1 }; }; template<> struct TC<double> { enum { c = 2 }; }; template<> struct TC<long double> { enum { c = 3 }; };
template<typename T> struct RB { u64 v; }; template<typename T> struct RD { u64 v; };
inline u64 ev(int p) { return (u64)(long)p * 3 + 5; }
inline u64 ev(D d) { return (u64)(unsigned char)d * 5 + 77; }
inline u64 ev(float m) { return m > 2 ? 1009 : 1013; }
inline u64 ev(double m) { return m > 2 ? 2003 : 2011; }
inline u64 ev(long double m) { return m > 2 ? 3001 : 3011; }
inline u64 ev(std::string const& s) { return *(u64 const*)&s * 13; }
template<typename T> inline u64 ev(RB<T> const& r) { return r.v * 9 + TC<T>::c; }
template<typename T> inline u64 ev(RD<T> const& r) { return r.v * 11 + 100 + TC<T>::c; }
inline u64 mix(u64 f) { return f; }
template<class A> inline u64 mix(u64 f, A const& a) { return f + ev(a) * 31; }
template<class A, class B> inline u64 mix(u64 f, A const& a, B const& b) { return f + ev(a) * 31 + ev(b) * 37; }
template<class A, class B, class C> inline u64 mix(u64 f, A const& a, B const& b, C const& c) { return f + ev(a) * 31 + ev(b) * 37 + ev(c) * 41; }
template<class T, class A> struct K; template<class T, class U> struct K<T, RB<U> > { typedef RB<T> t; }; template<class T, class U> struct K<T, RD<U> > { typedef RD<T> t; };
template<typename T> struct SF {
  typedef RB<T> representation; typedef RD<T> representation_dec;
  template<typename U> using representation_type = RB<U>; template<typename U> using representation_dec_type = RD<U>;
  static const u64 tc = 7919ul * TC<T>::c;
  static representation copy(representation const& o) { return o; }
  static representation_dec copy(representation_dec const& o) { return o; }
'''
    k = lambda f: '%dul' % (FID[f] * 1000003)
    for f in UN + BI + ['fma', 'pown', 'pown_rev', 'mul_rev'] + REV1:
        s += '  template<class A, class... R> static typename K<T, A>::t %s(A const& a, R const&... r) { typename K<T, A>::t o; o.v = mix(%s + tc, a, r...); return o; }\n' % (f, k(f))
    s += '  template<class A, class B> static pair<typename K<T, A>::t, typename K<T, A>::t> mul_rev_to_pair(A const& a, B const& b) { pair<typename K<T, A>::t, typename K<T, A>::t> o; o.first.v = mix(%s + tc, a, b); o.second.v = mix(%s + tc, a, b) * 3; return o; }\n' % (k('mul_rev_to_pair'), k('mul_rev_to_pair'))
    for f in B1 + B2 + ['is_member', 'is_nai']:
        s += '  template<class... R> static bool %s(R const&... r) { return (mix(%s, r...) >> 5) & 1; }\n' % (f, k(f))
    for f in NUM:
        s += '  template<class A> static T %s(A const& a) { return (T)(mix(%s + tc, a) & 0xffff); }\n' % (f, k(f))
    s += '  template<class A> static pair<T, T> mid_rad(A const& a) { u64 h = mix(%s + tc, a); return pair<T, T>((T)(h & 0xffff), (T)((h >> 16) & 0xffff)); }\n' % k('mid_rad')
    s += '  template<class A, class B> static p1788::overlapping::overlapping_state overlap(A const& a, B const& b) { return (p1788::overlapping::overlapping_state)(mix(%s, a, b) & 0xffff); }\n' % k('overlap')
    s += '  template<class A> static D decoration_part(A const& a) { return (D)(mix(%s, a) & 0xff); }\n' % k('decoration_part')
    for f, d in (('empty', 0), ('entire', 0), ('nums_to_interval', 0), ('text_to_interval', 0), ('convert_type', 2), ('interval_part', 0), ('empty_dec', 1), ('entire_dec', 1), ('nai', 1), ('nums_to_decorated_interval', 1),
                 ('nums_dec_to_decorated_interval', 1), ('text_to_decorated_interval', 1), ('new_dec', 1), ('set_dec', 1)):
        if d == 2: s += '  template<class A> static typename K<T, A>::t %s(A const& a) { typename K<T, A>::t o; o.v = mix(%s + tc, a); return o; }\n' % (f, k(f))
        else: s += '  template<class... R> static representation%s %s(R const&... r) { representation%s o; o.v = mix(%s + tc, r...); return o; }\n' % (['', '_dec'][d], f, ['', '_dec'][d], k(f))
    s += '  template<class S, class A> static S& operator_interval_to_text(S& os, A const& a) { *(u64*)&os = mix(%s + tc, a); return os; }\n' % k('out')
    s += '  template<class S, class A> static S& operator_text_to_interval(S& is, A& a) { a.v = %s + tc + *(u64*)&is * 31; return is; }\n' % k('in')
    s += '};\n}\ntemplate<typename T> using XB = p1788::infsup::interval<T, wr::SF>; template<typename T> using XD = p1788::infsup::decorated_interval<T, wr::SF>;\n'
    s += '#define V(X, k) (*(X const*)((const char*)in + 16*(k)))\n'
    s += 'template<class X> static inline void P(void* out, int k, X const& r) { O(unsigned long, k) = *(unsigned long const*)&r; }\n'
    s += 'static inline void P(void* out, int k, bool r) { O(unsigned long, k) = r; }\nstatic inline void P(void* out, int k, D r) { O(unsigned long, k) = (unsigned char)r; }\n'
    s += 'template<class T> static inline void N(void* out, int k, T r) { O(unsigned long, k) = (unsigned long)(unsigned int)(int)r; }\n#define FN p1788::infsup\n'
    return s
INS = [('x', 'u64'), ('y', 'u64'), ('z', 'u64'), ('p', 'i32'), ('d', 'u8'), ('m', 'f'), ('n', 'd'), ('o', 'l'), ('s', 'u64'), ('s2', 'u64')]
SLOTN = {n: i for i, (n, k) in enumerate(INS)}
def B64(v): return z3.BitVecVal(v & M64, 64)
class W:
    def __init__(self): self.st = []; self.sp = []
    def arg(self, n, t=None, dec=False):
        """C++ expression of an argument and its token"""
        if n in 'xyz': return 'V(X%s<%s >,%d)' % ('BD'[dec], CTY[t], SLOTN[n]), (lambda i: i[SLOTN[n]] * B64(11 if dec else 9) + B64((100 if dec else 0) + TCN[t]))
        if n == 'p': return 'I(int,3)', lambda i: z3.SignExt(32, i[3]) * B64(3) + B64(5)
        if n == 'd': return '(D)I(unsigned char,4)', lambda i: z3.ZeroExt(56, i[4]) * B64(5) + B64(77)
        if n in 'mno':
            t = {'m': 'f', 'n': 'd', 'o': 'l'}[n]; a, b = {'m': (1009, 1013), 'n': (2003, 2011), 'o': (3001, 3011)}[n]; j = SLOTN[n]
            return 'I(%s,%d)' % (CTY[t], j), lambda i: z3.If(gt(i[j], z3.FPVal(2.0, FMT[t].sort)), B64(a), B64(b))
        if n == 's': return '(*(std::string const*)((const char*)in + 16*8))', lambda i: i[8] * B64(13)
    def h(self, fn, T, toks):
        def f(i):
            r = B64(FID[fn] * 1000003 + (7919 * TCN[T] if T else 0))
            for c, t in zip((31, 37, 41), toks): r = r + B64(c) * t(i)
            return r
        return f
    def add(self, stmt, val, label):
        self.st.append(stmt.replace('@', str(len(self.st)))); self.sp.append((label, val))
    def val(self, label, expr, fn, T, toks): self.add('P(out,@,%s);' % expr, self.h(fn, T, toks), label)
    def bool(self, label, expr, fn, toks, neg=False):
        h = self.h(fn, None, toks)
        self.add('P(out,@,%s);' % expr, lambda i: z3.ZeroExt(63, z3.Extract(5, 5, h(i)) ^ z3.BitVecVal(1 if neg else 0, 1)), label)
    def num(self, label, expr, fn, T, toks, hi=0):
        h = self.h(fn, T, toks)
        self.add('N<%s>(out,@,%s);' % (CTY[T], expr), lambda i: z3.ZeroExt(48, z3.Extract(hi + 15, hi, h(i))), label)
    def done(self, name):
        sp = list(self.sp); labels = []
        def spec(reg, i, o): return [('%s #%d' % (l, k), o[k] == v(i)) for k, (l, v) in enumerate(sp)]
        hh = H('wrap_' + name, '\n'.join(self.st), INS, [('o%d' % k, 'u64') for k in range(len(self.st))], spec, note='front-end forms of ' + name, bound='all operand tokens',
               opts={'group': 'wrap', 'optional': True, 'noleak': False})
        hh.prelude = prelude(); return hh
C2 = 'XB', 'XD'
def cls(dec, t): return 'X%s<%s >' % ('BD'[dec], CTY[t])
def un(fn):
    w = W()
    for dec in (0, 1):
        for T, t in ('dd', 'ff', 'fd', 'df', 'ld', 'fl'):
            a, k = w.arg('x', t, dec); w.val('static %s %s' % (T, t), '%s::%s(%s)' % (cls(dec, T), fn, a), fn, T, [k])
        for t in 'df':
            a, k = w.arg('x', t, dec); w.val('function', 'FN::%s(%s)' % (fn, a), fn, t, [k])
            if fn in OPER: w.val('operator', '%s(%s)' % (OPER[fn], a), fn, t, [k])
    if fn in REV1: bi(fn, w)
    return w.done(fn)
def nary(fn, names, extra=(), w=None, oper=None):
    """names: interval operands in call order, extra: trailing plain operands"""
    own = w is None; w = w or W()
    n = len(names)
    combos = {2: ['d:dd', 'f:ff', 'd:df', 'd:fd', 'f:df', 'f:fd', 'f:dd', 'd:ff', 'l:fd', 'f:ld'], 3: ['d:ddd', 'f:fff', 'd:fdf', 'f:ddf', 'f:fdd', 'd:ffl', 'l:ldf'], 1: ['d:d', 'f:f', 'd:f', 'f:d', 'l:f']}[n]
    for dec in (0, 1):
        for c in combos:
            T, ts = c.split(':')
            aa = [w.arg(q, t, dec) for q, t in zip(names, ts)] + [w.arg(q) for q in extra]
            w.val('static ' + c, '%s::%s(%s)' % (cls(dec, T), fn, ','.join(a for a, _ in aa)), fn, T, [k for _, k in aa])
        for t in 'df':
            aa = [w.arg(q, t, dec) for q in names] + [w.arg(q) for q in extra]
            w.val('function ' + t, 'FN::%s(%s)' % (fn, ','.join(a for a, _ in aa)), fn, t, [k for _, k in aa])
            if oper: w.val('operator ' + t, '%s %s %s' % (aa[0][0], oper, aa[1][0]), fn, t, [k for _, k in aa])
    return w.done(fn) if own else None
def bi(fn, w=None): return nary(fn, 'xy', w=w, oper=OPER.get(fn) if fn in BI else None)
def two(fn):
    w = W()
    if fn == 'pown_rev': nary(fn, 'x', 'p', w=w); nary(fn, 'xy', 'p', w=w)
    if fn == 'mul_rev': nary(fn, 'xy', w=w); nary(fn, 'xyz', w=w)
    return w.done(fn)
def topair():
    w = W(); fn = 'mul_rev_to_pair'
    for dec in (0, 1):
        for c in ['d:dd', 'f:ff', 'd:df', 'd:fd', 'f:df', 'f:dd', 'd:ff', 'l:fd', 'F:d', 'F:f']:
            T, ts = c.split(':'); free = T == 'F'
            if free: T = ts; ts = ts * 2
            aa = [w.arg(q, t, dec) for q, t in zip('xy', ts)]
            e = '%s::%s(%s)' % ('FN' if free else cls(dec, T), fn, ','.join(a for a, _ in aa))
            h = w.h(fn, T, [k for _, k in aa])
            w.add('P(out,@,%s.first);' % e, h, 'first ' + c); w.add('P(out,@,%s.second);' % e, (lambda h: lambda i: h(i) * B64(3))(h), 'second ' + c)
    return w.done(fn)
def bool1(fn):
    w = W()
    for dec in (0, 1):
        if fn == 'is_nai' and not dec: continue
        for t in 'dfl':
            a, k = w.arg('x', t, dec)
            w.bool('static', '%s::%s(%s)' % (cls(dec, t), fn, a), fn, [k]); w.bool('function', 'FN::%s(%s)' % (fn, a), fn, [k])
    return w.done(fn)
def bool2(fn):
    w = W(); base = SWAP.get(fn, fn); sw = fn in SWAP
    for dec in (0, 1):
        for t, u in ('dd', 'ff', 'df', 'fd', 'lf', 'dl'):
            a, k = w.arg('x', t, dec); b, l = w.arg('y', u, dec)
            toks = [l, k] if sw else [k, l]
            w.bool('static %s%s' % (t, u), '%s::%s(%s,%s)' % (cls(dec, t), fn, a, b), base, toks)
            w.bool('function %s%s' % (t, u), 'FN::%s(%s,%s)' % (fn, a, b), base, toks)
            if fn == 'equal': w.bool('operator==', '%s == %s' % (a, b), base, toks); w.bool('operator!=', '%s != %s' % (a, b), base, toks, neg=True)
    return w.done(fn)
def member():
    w = W()
    for dec in (0, 1):
        for t in 'dfl':
            a, k = w.arg('x', t, dec)
            for m in 'mno':
                b, l = w.arg(m); w.bool('static', '%s::is_member(%s,%s)' % (cls(dec, t), b, a), 'is_member', [l, k]); w.bool('function', 'FN::is_member(%s,%s)' % (b, a), 'is_member', [l, k])
    return w.done('is_member')
def ovl_():
    w = W()
    for dec in (0, 1):
        for t, u in ('dd', 'ff', 'df', 'fd', 'lf', 'dl'):
            a, k = w.arg('x', t, dec); b, l = w.arg('y', u, dec); h = w.h('overlap', None, [k, l])
            for e in ('%s::overlap(%s,%s)' % (cls(dec, t), a, b), 'FN::overlap(%s,%s)' % (a, b)):
                w.add('O(unsigned long,@) = (unsigned long)(%s);' % e, (lambda h: lambda i: z3.ZeroExt(48, z3.Extract(15, 0, h(i))))(h), 'overlap %s%s' % (t, u))
    return w.done('overlap')
def num(fn):
    w = W()
    for dec in (0, 1):
        for T, t in ('dd', 'ff', 'fd', 'df', 'ld', 'dl', 'Fd', 'Ff'):
            a, k = w.arg('x', t, dec); c = 'FN' if T == 'F' else cls(dec, T); T = t if T == 'F' else T
            e = '%s::%s(%s)' % (c, fn, a)
            if fn == 'mid_rad': w.num('mid', e + '.first', fn, T, [k]); w.num('rad', e + '.second', fn, T, [k], hi=16)
            else: w.num('%s %s %s' % (c, T, t), e, fn, T, [k])
    return w.done(fn)
def ctor():
    w = W(); hs = []
    for T in 'dfl':
        for dec in (0, 1):
            X = cls(dec, T); sfx = ['', '_dec'][dec]
            w.val('default', X + '()', 'empty' + sfx, T, []); w.val('empty', X + '::empty()', 'empty' + sfx, T, []); w.val('entire', X + '::entire()', 'entire' + sfx, T, [])
            if dec: w.val('nai', X + '::nai()', 'nai', T, [])
            for p in ('mm', 'nn', 'oo', 'mn', 'nm', 'on', 'mo'):
                # both operands read different slots only when their types differ; equal types use a fixed second operand
                a, k = w.arg(p[0])
                if p[0] != p[1]: b, l = w.arg(p[1])
                else:
                    t = {'m': 'f', 'n': 'd', 'o': 'l'}[p[0]]; b = '(%s)1' % CTY[t]; v = {'m': 1013, 'n': 2011, 'o': 3011}[p[0]]; l = (lambda v: lambda i: B64(v))(v)
                w.val('bounds ' + p, '%s(%s,%s)' % (X, a, b), ['nums_to_interval', 'nums_to_decorated_interval'][dec], T, [k, l])
                w.val('bounds rev ' + p, '%s(%s,%s)' % (X, b, a), ['nums_to_interval', 'nums_to_decorated_interval'][dec], T, [l, k])
                if dec:
                    d, m = w.arg('d'); w.val('bounds dec ' + p, '%s(%s,%s,%s)' % (X, a, b, d), 'nums_dec_to_decorated_interval', T, [k, l, m])
                    w.val('bounds dec rev ' + p, '%s(%s,%s,%s)' % (X, b, a, d), 'nums_dec_to_decorated_interval', T, [l, k, m])
            s, k = w.arg('s'); w.val('text', '%s(%s)' % (X, s), ['text_to_interval', 'text_to_decorated_interval'][dec], T, [k])
            a, k = w.arg('x', T, dec); w.add('P(out,@,%s(%s));' % (X, a), lambda i: i[0], 'copy')
            w.add('{ %s q; q = %s; P(out,@,q); }' % (X, a), lambda i: i[0], 'assignment')
            for t in 'dfl':
                if t != T: a, k = w.arg('x', t, dec); w.val('convert', '%s(%s)' % (X, a), 'convert_type', T, [k])
                b, l = w.arg('x', t, not dec)
                if not dec: w.val('interval part', '%s(%s)' % (X, b), 'interval_part', T, [l])
                else:
                    w.val('new_dec', '%s(%s)' % (X, b), 'new_dec', T, [l])
                    d, m = w.arg('d'); w.val('set_dec', '%s(%s,%s)' % (X, b, d), 'set_dec', T, [l, m])
            if dec:
                a, k = w.arg('x', T, 1); h = w.h('decoration_part', None, [k])
                for e in ('%s::decoration(%s)' % (X, a), 'FN::decoration(%s)' % a): w.add('P(out,@,%s);' % e, (lambda h: lambda i: z3.ZeroExt(56, z3.Extract(7, 0, h(i))))(h), 'decoration')
    return w.done('constructors')
def io():
    w = W()
    for dec in (0, 1):
        for T in 'dfl':
            a, k = w.arg('x', T, dec)
            w.add('{ std::ostream& os = *(std::ostream*)((char*)out + 16*@); std::ostream& r = (os << %s); if (&r != &os) O(unsigned long,@) = 0; }' % a, w.h('out', T, [k]), 'operator<<')
            w.add('{ std::istream& is = *(std::istream*)((char*)in + 16*8); %s q; std::istream& r = (is >> q); if (&r == &is) P(out,@,q); else O(unsigned long,@) = 0; }' % cls(dec, T),
                  (lambda T: lambda i: B64(FID['in'] * 1000003 + 7919 * TCN[T]) + B64(31) * i[8])(T), 'operator>>')
    return w.done('io')
def forms(names):
    hs = []
    for n in names:
        if n in UN or n in REV1: hs.append(un(n))
        elif n in BI: hs.append(bi(n))
        elif n == 'fma': hs.append(nary(n, 'xyz'))
        elif n == 'pown': hs.append(nary(n, 'x', 'p'))
        elif n in ('pown_rev', 'mul_rev'): hs.append(two(n))
        elif n == 'mul_rev_to_pair': hs.append(topair())
        elif n in B1 or n == 'is_nai': hs.append(bool1(n))
        elif n in B2 or n in SWAP: hs.append(bool2(n))
        elif n == 'is_member': hs.append(member())
        elif n == 'overlap': hs.append(ovl_())
        elif n in NUM or n == 'mid_rad': hs.append(num(n))
        elif n == 'constructors': hs.append(ctor())
        elif n == 'io': hs.append(io())
        else: raise KeyError(n)
    return hs
EVERY = UN + BI + ['fma', 'pown', 'pown_rev', 'mul_rev', 'mul_rev_to_pair'] + REV1 + B1 + B2 + list(SWAP) + NUM + ['mid_rad', 'is_member', 'overlap', 'is_nai', 'constructors', 'io']
