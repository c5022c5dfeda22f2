"""Text input: templates of literals with symbolic characters against an independent reading of the literal grammar."""
from .gen import *
from se import streams as SR
from se.streams import Poly, ofargs, cmpc, DIG, WS, dterm
from itertools import product
from fractions import Fraction
TOTAL = frozenset(range(256))
def letters(c): return frozenset([ord(c.lower()), ord(c.upper())])
def classes(kind):
    """[(exemplar character, set of bytes)]: bytes of a class are interchangeable in the grammar (digits up to their value)"""
    if kind == '#': return [('1', DIG)]
    if kind == '%': return [('0', frozenset(b'0')), ('1', DIG - {48})]
    if kind == '~': return [('1', DIG), ('b', frozenset(b'abcdef')), ('B', frozenset(b'ABCDEF'))]
    if kind == '^': return [(' ', WS)]
    if kind == '@':
        out = [('0', frozenset(b'0')), ('1', DIG - {48}), (' ', WS)] + [(chr(c), letters(chr(c))) for c in range(97, 123)] + [(chr(c), frozenset([c])) for c in b'[].,+-/?_']
        rest = TOTAL - frozenset().union(*[s for _, s in out]) - {0}
        return out + [('$', rest)]
    if kind.startswith('!'): return [(kind[1:].lower(), letters(kind[1:]))]
    raise KeyError(kind)
def parse_template(t):
    """-> list of str (fixed character) or list of classes"""
    out = []; i = 0
    while i < len(t):
        c = t[i]
        if c == '\\': out.append(t[i + 1]); i += 2
        elif c in '#%~^@': out.append(classes(c)); i += 1
        elif c == '!': out.append(classes(t[i:i + 2])); i += 2
        else: out.append(c); i += 1
    return out
# ---------------------------------------------------------------- the grammar, read independently of the library
class Fail(Exception): pass
class P:
    """recursive descent over exemplar characters; a number is (sign, digits as position lists, base, exponent of the last digit)"""
    def __init__(s, cs): s.c = [x.lower() for x in cs]; s.i = 0
    def pk(s, k=0): return s.c[s.i + k] if s.i + k < len(s.c) else ''
    def ws(s):
        while s.pk() and s.pk() in ' \t\n\v\f\r': s.i += 1
    def lit(s, w):
        if ''.join(s.c[s.i:s.i + len(w)]) == w: s.i += len(w); return True
        return False
    def digits(s, al):
        b = s.i
        while s.pk() and s.pk() in al: s.i += 1
        return list(range(b, s.i))
    def number(s, base, al):
        """digits with an optional point -> (positions, number of fraction digits) or None"""
        b = s.i
        a = s.digits(al); f = []
        if s.pk() == '.':
            s.i += 1; f = s.digits(al)
        if not a and not f: s.i = b; return None
        return a + f, len(f)
    def expo(s):
        g = 1
        if s.pk() and s.pk() in '+-': g = -1 if s.pk() == '-' else 1; s.i += 1
        d = s.digits('0123456789')
        if not d: raise Fail()
        return g, d
    def literal(s):
        """a number literal: ('dec'|'hex', sign, positions, fraction digits, exponent) | ('rat', sign, num, den)"""
        b = s.i; g = 1
        if s.pk() and s.pk() in '+-': g = -1 if s.pk() == '-' else 1; s.i += 1
        if s.pk() == '0' and s.pk(1) == 'x':
            s.i += 2
            n = s.number(16, '0123456789abcdef')
            if n is None or s.pk() != 'p': raise Fail()
            s.i += 1
            return ('hex', g, n[0], n[1], s.expo())
        n = s.number(10, '0123456789')
        if n is None: raise Fail()
        if n[1] == 0 and s.c[s.i - 1] != '.':
            k = s.i; s.ws()
            if s.pk() == '/':
                s.i += 1; s.ws(); d = s.digits('0123456789')
                if not d or all(s.c[j] == '0' for j in d): raise Fail()
                return ('rat', g, n[0], d)
            s.i = k
        x = None
        if s.pk() == 'e': s.i += 1; x = s.expo()
        return ('dec', g, n[0], n[1], x)
    def interval(s):
        """-> (kind, lower, upper); consumes through the bracket"""
        if not s.lit('['): raise Fail()
        s.ws()
        if s.lit(']'): return 'empty', None, None
        for w in ('empty', 'entire', 'nai'):
            if s.lit(w):
                s.ws()
                if not s.lit(']'): raise Fail()
                return w, None, None
        lo = None
        if s.pk() != ',':
            if s.lit('-infinity') or s.lit('-inf'): lo = '-inf'
            else: lo = s.literal()
        s.ws()
        if s.lit(']'):
            if lo == '-inf': raise Fail()
            return 'point', lo, lo
        if not s.lit(','): raise Fail()
        s.ws(); hi = None
        if s.pk() != ']':
            k = s.i
            if s.pk() == '+': s.i += 1
            if s.lit('infinity') or s.lit('inf'): hi = '+inf'
            else: s.i = k; hi = s.literal()
        s.ws()
        if not s.lit(']'): raise Fail()
        return 'bounds', lo or '-inf', hi or '+inf'
    def uncertain(s):
        g = 1
        if s.pk() and s.pk() in '+-': g = -1 if s.pk() == '-' else 1; s.i += 1
        n = s.number(10, '0123456789')
        if n is None or not s.lit('?'): raise Fail()
        r = 'half'
        if s.lit('?'): r = 'inf'
        else:
            d = s.digits('0123456789')
            if d: r = d
        w = ''
        if s.pk() and s.pk() in 'ud': w = s.pk(); s.i += 1
        x = None
        if s.pk() == 'e': s.i += 1; x = s.expo()
        return 'uncertain', (g, n[0], n[1], x), (r, w)
    def whole(s):
        """-> (kind, a, b, decoration or None)"""
        s.ws()
        k = s.interval() if s.pk() == '[' else s.uncertain()
        d = None
        if s.lit('_'):
            s.ws0 = s.i
            s.ws()            # the decoration is read with leading whitespace skipped
            for w, v in (('ill', 0), ('trv', 4), ('def', 8), ('dac', 12), ('com', 16)):
                if s.lit(w): d = v; break
            else:
                q = s.digits('0123456789')
                if not q: raise Fail()
                d = ('num', q)
        return k + (d,)
def value(l, ch, exps):
    """exact value of a literal as a polynomial in the symbolic digits; exps(positions) -> concrete exponent digits"""
    def num(ps, base):
        v = Poly()
        for p in ps: v = v.mul(base).add(ch(p, base))
        return v
    if l[0] == 'rat':
        d = num(l[3], 10)
        if not d.t and d.c == 0: raise Fail()
        return num(l[2], 10).mul(Fraction(l[1]) / d.c) if not d.t else None
    base = 10 if l[0] == 'dec' else 16
    x = 0 if l[4] is None else l[4][0] * exps(l[4][1])
    eb = Fraction(10) ** (x - l[3]) if base == 10 else Fraction(2) ** (x - 4 * l[3])
    return num(l[2], base).mul(eb).mul(l[1])
def text_spec(items, T, out):
    """out: 'stream' | 'bare' | 'dec'"""
    f = FMT[T]; S = f.sort
    sym = [k for k, it in enumerate(items) if not isinstance(it, str)]
    def meaning(ex):
        p = P(ex)
        try:
            m = p.whole()
        except Fail: return None
        k, a, b, d = m
        rest = ex[p.i:]
        if out != 'stream' and any(c not in ' \t\n\v\f\r' for c in rest): return None
        return m + (p.i,)
    cache = {}
    def spec(reg, i, o):
        e = getattr(reg, 'engine', None); doms = e.side.get('dom', {}) if e is not None else {}
        opts = []
        for n, k in enumerate(sym):
            c = i[n]; l = []
            for ex, S_ in items[k]:
                if z3.is_bv_value(c):
                    if c.as_long() in S_: l.append((ex, S_))
                else:
                    d = doms.get(c.get_id())
                    if d is None or d[1] & S_: l.append((ex, S_))
            opts.append(l)
        out_ = []
        for combo in product(*opts):
            ex = [it if isinstance(it, str) else None for it in items]
            for k, (x, _) in zip(sym, combo): ex[k] = x
            key = ''.join(ex)
            if key not in cache: cache[key] = meaning(ex)
            m = cache[key]
            cond = [SR.inset(i[n], s_) for n, (_, s_) in enumerate(combo)] if combo else []
            # exponents and denominators are concrete on a path: enumerate their remaining digits
            enum = []
            if m is not None:
                def need(l):
                    if isinstance(l, tuple) and l and l[0] in ('dec', 'hex') and l[4]: enum.extend(l[4][1])
                    if isinstance(l, tuple) and l and l[0] == 'rat': enum.extend(l[3])
                if m[0] == 'uncertain':
                    if m[1][3]: enum.extend(m[1][3][1])
                else: need(m[1]); need(m[2])
                if isinstance(m[3], tuple): enum.extend(m[3][1])
            enum = [p for p in dict.fromkeys(enum) if p in sym]
            dl = []
            for p in enum:
                c = i[sym.index(p)]; s_ = dict(zip(sym, combo))[p][1] & DIG
                if z3.is_bv_value(c): dl.append([c.as_long()])
                else: dl.append(sorted(s_ & (doms[c.get_id()][1] if c.get_id() in doms else TOTAL)))
            for dv in product(*dl):
                fixed = dict(zip(enum, dv))
                cc = cond + [i[sym.index(p)] == v for p, v in fixed.items()]
                out_.append((And(*cc) if cc else z3.BoolVal(True), result(reg, i, o, m, fixed, ex)))
        named = {}
        for c, rs in out_:
            for lab, t in rs: named.setdefault(lab, []).append(Implies(c, t))
        return [(l, And(*ts)) for l, ts in named.items()]
    def result(reg, i, o, m, fixed, ex):
        if out == 'stream': lo, hi, dec, fl, nxt = o
        elif out == 'dec': lo, hi, dec, fl = o; nxt = None
        else: (lo, hi, fl), dec, nxt = o, None, None
        def failed():
            if out == 'stream': return [('rejected', fl == 1)]
            r = [('rejected: empty', And(isNaN(lo), isNaN(hi))), ('rejected: signal', (fl & 1) == 1)]
            return r + ([('rejected: nai', dec == 0)] if out == 'dec' else [])
        if m is None: return failed()
        kind, a, b, d, end = m
        def ch(p, base):
            if p in fixed: return Poly(fixed[p] - 48)
            if isinstance(items[p], str): return Poly(int(items[p], 16))
            c = i[sym.index(p)]
            k = int(ex[p], 16); of, ad = (48, 0) if k < 10 else (97, 10) if ex[p].islower() else (65, 10)
            if z3.is_bv_value(c): return Poly(c.as_long() - of + ad)
            return dterm(c, of, ad)
        def exps(ps):
            v = 0
            for p in ps: v = v * 10 + (fixed[p] - 48 if p in fixed else int(items[p]))
            return min(v, 100000)        # anything larger rounds alike for the literals in bound
        try:
            va = value(a, ch, exps) if kind in ('point', 'bounds') and a != '-inf' else None; vb = va if kind == 'point' else value(b, ch, exps) if kind == 'bounds' and b != '+inf' else None
        except Fail: return failed()
        if isinstance(d, tuple):
            v = 0
            for p in d[1]: v = v * 10 + (fixed[p] - 48 if p in fixed else ord(ex[p]) - 48)
            if v not in (0, 4, 8, 12, 16): return failed()
            d = v
        def rnd(p, r):
            ar = p.args(); return reg.R('lin', r, f, ar)
        pinf, ninf = z3.fpPlusInfinity(S), z3.fpMinusInfinity(S)
        valid = z3.BoolVal(True); top = 16
        if kind in ('empty', 'nai'): L = U = None; top = 4 if kind == 'empty' else 0
        elif kind == 'entire': L, U, top = ninf, pinf, 12
        elif kind in ('point', 'bounds'):
            L = ninf if a == '-inf' else rnd(va, 'D'); U = pinf if b == '+inf' else rnd(vb, 'U')
            if va is not None and vb is not None: valid = cmpc(va.add(vb, -1), '<=')
            if a == '-inf' or b == '+inf': top = 12
        else:
            (g, ps, nf, x), (r, w) = a, b
            v = Poly()
            for p in ps: v = v.mul(10).add(ch(p, 10))
            xv = 0 if x is None else x[0] * exps(x[1])
            u = Fraction(10) ** (xv - nf); v = v.mul(g * u)
            if r == 'inf':
                top = 12; L = rnd(v, 'D') if w == 'u' else ninf; U = rnd(v, 'U') if w == 'd' else pinf
            else:
                if r == 'half': rad = Poly(u / 2)
                else:
                    rad = Poly()
                    for p in r: rad = rad.mul(10).add(ch(p, 10))
                    rad = rad.mul(u)
                L = rnd(v if w == 'u' else v.add(rad, -1), 'D'); U = rnd(v if w == 'd' else v.add(rad), 'U')
        if d is not None and (d > top or d == 0 or kind == 'nai'): return failed()
        # accepted
        if L is None:
            rs = [('bounds', And(isNaN(lo), isNaN(hi)))]; wd = z3.BitVecVal(0 if kind == 'nai' else 4 if d is None else d, 8)
        else:
            ub = Or(isInf(L), isInf(U))
            rs = [('lower bound', z3.fpEQ(lo, L)), ('upper bound', z3.fpEQ(hi, U))]
            wd = If(ub, z3.BitVecVal(min(12, 16 if d is None else d), 8), z3.BitVecVal(16 if d is None else d, 8))
        if dec is not None: rs.append(('decoration', dec == wd))
        if out == 'stream':
            rs.append(('accepted', fl == 0))
            n = ex[end] if end < len(ex) else None
            if n is None: rs.append(('next character', nxt == z3.BitVecVal(-1, 32)))
            elif end in sym: rs.append(('next character', nxt == z3.ZeroExt(24, i[sym.index(end)])))
            else: rs.append(('next character', nxt == ord(items[end])))
        elif out == 'bare': rs.append(('no signal', (fl & 1) == 0)); rs.append(('interval part of nai', ((fl & 4) != 0) == (kind == 'nai')))
        else: rs.append(('no signal', fl == 0))
        fs = failed()
        if z3.is_true(valid): return rs
        return [(l, Implies(valid, t)) for l, t in rs] + [(l, Implies(Not(valid), t)) for l, t in fs]
    return spec
PRE = '#include <sstream>\n#ifndef VERIF_SO\ntemplate class std::basic_string<char>;\n#endif\n'
def text_harness(name, tmpl, T, out, note='', tier='quick'):
    items = parse_template(tmpl); ct = CTY[T]
    sym = [k for k, it in enumerate(items) if not isinstance(it, str)]
    body = 'char b[%d]; ' % (len(items) + 1) + ' '.join('b[%d] = %s;' % (k, 'I(char,%d)' % sym.index(k) if k in sym else str(ord(it))) for k, it in enumerate(items)) + ' std::string s(b, %d);\n' % len(items)
    if out == 'stream':
        body += ' std::istringstream is(s); RD<%s> x; F<%s>::operator_text_to_interval(is, x); int f = is.fail(); O(unsigned char,3) = f; is.clear(); int n = is.peek(); O(int,4) = f ? 0 : n; if (f) x = RD<%s>(R<%s>(0, 0), D::com); OD(out,0,x);' % (ct, ct, ct, ct)
        outs = [('lo', T), ('hi', T), ('dec', 'u8'), ('fail', 'u8'), ('next', 'i32')]
    elif out == 'dec':
        body += ' p1788::exception::clear(); RD<%s> x = F<%s>::text_to_decorated_interval(s); OD(out,0,x); O(unsigned char,3) = p1788::exception::state();' % (ct, ct)
        outs = [('lo', T), ('hi', T), ('dec', 'u8'), ('flags', 'u8')]
    else:
        body += ' p1788::exception::clear(); R<%s> x = F<%s>::text_to_interval(s); OV(out,0,x); O(unsigned char,2) = p1788::exception::state();' % (ct, ct)
        outs = [('lo', T), ('hi', T), ('flags', 'u8')]
    def pre(reg, i):
        return [SR.inset(i[n], frozenset().union(*[s for _, s in items[k]])) for n, k in enumerate(sym)]
    def setup(e):
        for n, k in enumerate(sym): SR.setdom(e, e.runner.inv[n], frozenset().union(*[s for _, s in items[k]]))
        initmanip(e)
    def vary(v, rnd):
        for n, k in enumerate(sym):
            if rnd.random() < 0.7: v[n] = rnd.choice(sorted(rnd.choice(items[k])[1]))
        return v
    h = H(name, body, [('c%d' % k, 'u8') for k in sym], outs, text_spec(items, T, out), pre=pre, note=note,
          bound='the literal shape %r: # any digit, %% digit (denominator), ~ any hexadecimal digit, ^ any white space, @ any byte, !x either case; %s, %s' % (tmpl, ct, {'stream': 'from a stream', 'dec': 'decorated from a string', 'bare': 'bare from a string'}[out]),
          opts=dict(streams=True, cflags=('-fno-inline',), setup=setup, vary=vary, budget=120 if tier == 'quick' else 800, max_paths=40000, group='text'))
    h.prelude = PRE
    return h
def initmanip(e):
    """run the dynamic initialisers of the stream manipulator indices"""
    for n in e.m.funcs:
        if n.startswith('_GLOBAL__sub_I_'): e.call(n, [])
QUICK = [
    # bounds and points
    ('[#.#,##]', 'd', 'dec'), ('[-#.##]', 'd', 'bare'), ('[#,#]', 'f', 'stream'), ('[-#.#,-#.#]', 'l', 'dec'), ('^[^#^,^#^]^', 'd', 'bare'), ('[.#,#.]', 'd', 'dec'),
    ('[#e#,#e7]', 'd', 'dec'), ('[#e8,#e#]', 'd', 'bare'), ('[-#.#E-#,#e+2]', 'f', 'bare'), ('[#e-32#,#e308]', 'd', 'dec'), ('[-#e308,#e-30#]', 'd', 'bare'), ('[-#e30#]', 'd', 'stream'), ('[#e-4#]', 'f', 'dec'), ('[#e493#]', 'l', 'dec'),
    ('[0x~.~p-#]', 'd', 'dec'), ('[0x1.8p-1,0X~P#]', 'd', 'bare'), ('[0x~p-1,0x~.~p2]', 'l', 'dec'), ('[-0x~p#]', 'f', 'stream'), ('[#e99999999999]', 'd', 'dec'), ('[-#e-2147483649,#e3000000000]', 'f', 'bare'), ('[0x#p99999999999]', 'l', 'dec'), ('[0x1p-9999999999,0x#p99999999999]', 'd', 'stream'), ('#?e9999999999', 'd', 'dec'), ('[#e-9999999999]', 'd', 'dec'), ('[0x#p-107#,0x#.p102#]', 'd', 'dec'), ('[#/%,#/7]', 'd', 'dec'), ('[#/3,#/%]', 'f', 'bare'), ('[-#/%]', 'l', 'bare'), ('[# / %]', 'd', 'bare'),
    ('[+#,+#.#]', 'd', 'dec'), ('[+#.#e+#]', 'd', 'bare'), ('[+#/%,+0x2p+#]', 'd', 'dec'), ('[+0x~.~p+1,+inf]', 'd', 'dec'), ('[+.#,+0x#p3]', 'f', 'stream'),
    # special intervals and infinite bounds
    ('[]', 'd', 'dec'), ('[^]', 'd', 'stream'), ('[!e!m!p!t!y]', 'd', 'bare'), ('[^!e!n!t!i!r!e^]', 'd', 'dec'), ('[!n!a!i]', 'd', 'bare'), ('[!n!a!i]', 'd', 'dec'), ('[!n!a!i]', 'd', 'stream'),
    ('[,]', 'd', 'dec'), ('[^,#]', 'd', 'bare'), ('[#,]', 'd', 'dec'), ('[-!i!n!f,#]', 'd', 'dec'), ('[#,+!i!n!f!i!n!i!t!y]', 'd', 'dec'), ('[-inf,!i!n!f]', 'f', 'dec'), ('[+inf,#]', 'd', 'dec'), ('[-infinity]', 'd', 'bare'),
    # uncertain form
    ('#.#?', 'd', 'dec'), ('-#.#?#', 'd', 'bare'), ('#?!u', 'd', 'dec'), ('#.#?#!d', 'd', 'dec'), ('#??', 'd', 'dec'), ('-#.#??!u', 'd', 'bare'), ('#??!de#', 'f', 'dec'), ('#.#?#e-#', 'd', 'stream'), ('#.#?##ue#', 'l', 'dec'), ('+#.#?', 'd', 'dec'),
    # decorations
    ('[#,#]_!c!o!m', 'd', 'dec'), ('[#,#]_!d!a!c', 'd', 'stream'), ('[#,#]_!d!e!f', 'd', 'bare'), ('[#,]_trv', 'd', 'dec'), ('[,#]_com', 'd', 'dec'), ('[#]_ill', 'd', 'dec'), ('[]_trv', 'd', 'dec'), ('[empty]_def', 'd', 'bare'),
    ('[nai]_ill', 'd', 'dec'), ('[entire]_dac', 'd', 'dec'), ('[entire]_com', 'd', 'bare'), ('#.#?_com', 'd', 'dec'), ('#??_dac', 'd', 'dec'), ('#??u_com', 'd', 'bare'), ('[2,3]_@', 'd', 'dec'), ('[2,3]_@@m', 'd', 'dec'), ('[2,3]_da@', 'd', 'stream'), ('[2,]_d@f', 'd', 'bare'), ('[2,3]_1@', 'd', 'dec'), ('[2,3]_^!t!r!v', 'd', 'dec'), ('[#e30#]_com', 'd', 'dec'),
    # arbitrary bytes
    ('@', 'd', 'dec'), ('@@', 'd', 'dec'), ('[@]', 'd', 'bare'), ('[#@#]', 'd', 'dec'), ('[#,#]@', 'd', 'dec'), ('[#,#]@', 'd', 'stream'), ('@[#]', 'd', 'stream'), ('[#@,#]', 'd', 'bare'), ('[#,@#]', 'd', 'bare'), ('#@', 'd', 'dec'), ('#.#?@', 'd', 'stream'),
    ('[0@~p#]', 'd', 'dec'), ('[#e@#]', 'd', 'dec'), ('[#/@]', 'd', 'dec'), ('[nai]@', 'd', 'bare'), ('', 'd', 'bare'), ('', 'd', 'dec'), ('[', 'd', 'stream'),
]
THOROUGH = [
    ('[#e#,#e#]', 'd', 'dec'), ('[-#.#E-#,#e+#]', 'f', 'bare'), ('[#e-32#,#e30#]', 'd', 'dec'), ('[-#e30#,#e-30#]', 'd', 'bare'), ('[0x~.~p-#,0X~P#]', 'd', 'dec'), ('[#/%,#/%]', 'd', 'dec'), ('[+#/%,+0x~p+#]', 'd', 'dec'), ('[#,#]_@@@', 'd', 'dec'),
    ('[@@]', 'd', 'dec'), ('[#,#]@@', 'd', 'stream'), ('@@@', 'd', 'bare'), ('[@@#]', 'd', 'bare'), ('[#@@#]', 'd', 'dec'), ('#@@', 'd', 'dec'), ('#.#?@@', 'd', 'stream'), ('[###.###,####]', 'd', 'dec'), ('[-#.####e-1#]', 'l', 'bare'), ('[#e#,#e#]', 'f', 'stream'), ('[#e#,#e#]', 'l', 'dec'),
    ('##.#?##e-#', 'd', 'dec'), ('#.#?##ue#', 'f', 'bare'), ('#.#?de30#', 'd', 'dec'), ('[#e49##]', 'l', 'dec'), ('[-#.#e-49##]', 'l', 'bare'), ('[0x~.~~p#,0x~p#]', 'f', 'dec'), ('[##/%,##/%]', 'l', 'dec'),
]
def texts(tier):
    hs = []
    for tm, T, out in QUICK + (THOROUGH if tier == 'thorough' else []): hs.append(text_harness('t%d_%s_%s' % (len(hs), T, out), tm, T, out, tier=tier))
    return hs
