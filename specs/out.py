"""Text output: the characters written for an interval, against an independent description of the layout."""
from .gen import *
from .text import PRE, initmanip
from se import streams as SR, prints as PR, fmt as FM
from se.streams import Poly, cmpc, dterm, DIG
from fractions import Fraction
IO = 'p1788::io::'
MAN = {
 'text': ('text_representation_manip_id', ['lower_case_text_representation', 'upper_case_text_representation']),
 'rep': ('representation_manip_id', ['inf_sup_representation', 'uncertain_representation', 'uncertain_up_representation', 'uncertain_down_representation']),
 'num': ('number_representation_manip_id', ['decimal_scientific_representation', 'decimal_representation', 'scientific_representation', 'hex_representation']),
 'spec': ('special_representation_manip_id', ['text_special_representation', 'bounds_special_representation', 'no_bounds_special_representation']),
 'punct': ('punctuation_manip_id', ['show_punctuation', 'show_no_punctuation']),
 'uexp': ('uncertain_exponent_manip_id', ['show_no_uncertain_exponent', 'show_uncertain_exponent']),
 'decm': ('dec_manip_id', ['dec_alpha_representation', 'dec_numeric_representation']),
 'sw': ('string_width_manip_id', None), 'w': ('width_manip_id', None), 'p': ('precision_manip_id', None),
}
CONV = 'gfea'
class Ask:
    """case distinction of the specification: forks over what is still open on the path"""
    def __init__(s, e): s.e = e; s.pre = []; s.i = 0; s.cs = []
    def among(s, opts):
        opts = [(v, conc(c)) for v, c in opts]
        for v, c in opts:
            if c is True: return v
        if s.i < len(s.pre):
            k = s.pre[s.i][0]; s.i += 1; s.cs.append(opts[k][1]); return opts[k][0]
        ok = [k for k, (v, c) in enumerate(opts) if c is not False and (s.e is None or s.e.check(*s.cs, c) != z3.unsat)]
        if not ok: ok = [0]
        s.pre.append([ok[0], ok[1:]]); s.i += 1
        if len(ok) > 1 or s.e is None: s.cs.append(opts[ok[0]][1])
        else: s.cs.append(opts[ok[0]][1])
        return opts[ok[0]][0]
    def test(s, c): return s.among([(True, c), (False, Not(c))])
    def next(s):
        while s.pre and not s.pre[-1][1]: s.pre.pop()
        if not s.pre: return False
        s.pre[-1] = [s.pre[-1][1][0], s.pre[-1][1][1:]]; s.i = 0; s.cs = []; return True
from se.exec import conc
class Num:
    def __init__(s, conv, prec, rnd, val, width=0): s.conv = conv; s.prec = PR.norm(conv, prec); s.rnd = rnd; s.val = val; s.width = width
    def cands(s, e):
        """[(condition, Print)]"""
        v = z3.simplify(s.val)
        if z3.is_fp_value(v):
            n = FM.from_bits(FM.z3_to_bits(v), FM.fmt_of_sort(v.sort()).n)
            out = []
            for m in ([('zero', 0), ('zero', 1)] if n[0] == 'zero' else [n]):
                t = PR.real(m, s.conv, s.prec, s.rnd); q = PR.Print(s.conv, s.prec, s.rnd, v, list(t.encode()), None, 0)
                mm = re.match(r'(-?)([0-9]+)(?:\.([0-9]*))?(?:[eE]([-+][0-9]+))?$', t)
                if mm: q.num = Poly(int(mm.group(1) + mm.group(2) + (mm.group(3) or ''))); q.x = int(mm.group(4) or 0) - len(mm.group(3) or '')
                out.append((z3.BoolVal(True), q))
            return out
        if e is None: return []
        return [(z3.fpEQ(q.val, s.val), q) for q in e.side.get('prints', []) if (q.conv, q.prec, q.rnd) == (s.conv, s.prec, s.rnd) and q.val.sort() == s.val.sort()]
import re
def pad(t, w): return [32] * max(0, w - len(t)) + list(t)
def beq(o, t):
    """the written bytes o (list of terms) are t"""
    if len(o) != len(t): return F_
    cs = []
    for a, b in zip(o, t):
        if isinstance(a, int) and isinstance(b, int):
            if a != b: return F_
        else: cs.append((z3.BitVecVal(a, 8) if isinstance(a, int) else a) == b)
    return And(*cs) if cs else T_
def matches(e, segs, o, sw, fill):
    """segs: list of byte lists and Nums; fill: the layout as a function of the texts"""
    nums = [s for s in segs if isinstance(s, Num)]
    alts = [(T_, [])]
    for n in nums:
        alts = [(And(c, c2) if not z3.is_true(c) else c2, l + [q]) for c, l in alts for c2, q in n.cands(e)]
    out = []
    for c, qs in alts:
        it = iter(qs)
        texts = [pad(next(it).text, s.width) if isinstance(s, Num) else list(s) for s in segs]
        out.append(And(c, beq(o, fill(texts, sw))))
    return Or(*out) if out else F_
def fill_bare(t, sw):
    # [part1, part2, part3, part4, part5]
    w = max(0, sw - sum(map(len, t)))
    return t[0] + [32] * (w // 2) + t[1] + t[2] + [32] * (w - w // 2) + t[3] + t[4]
def B(s): return list(s.encode())
def inf_sup(A, M, x, sw):
    """-> (segments, fill)"""
    e, n = isE(x), None
    empty = A.test(e); entire = False if empty else A.test(And(isNInf(x[0]), isPInf(x[1])))
    np = M('punct')
    s = [B('' if np else '['), None, B(' ' if np else ','), None, B('' if np else ']')]
    if (empty or entire) and M('spec') != 1:
        if M('spec') == 2 and not np: t = ' ' if empty else ','
        else:
            t = 'empty' if empty else 'entire'
            if M('text'): t = t.upper()
        w = M('w'); l = len(t) - 1
        s[1] = [32] * max(0, w - l // 2); s[2] = B(t); s[3] = [32] * max(0, w - (l - l // 2))
    else:
        c = CONV[M('num')]; p = M('p'); p = p if p > 0 else (None if c == 'a' else 6)
        if M('text'): c = c.upper()
        S = x[0].sort()
        # inf and sup: an empty interval prints as [inf,-inf]; zero bounds are -0 and +0
        lo = z3.fpPlusInfinity(S) if empty else x[0]; hi = z3.fpMinusInfinity(S) if empty else x[1]
        w = M('w')
        s[1] = Num(c, p, 'D', lo, w); s[3] = Num(c, p, 'U', hi, w)
    return s, fill_bare
def bare(A, M, reg, e, x, o, sw):
    """condition: o is the text of the bare interval x"""
    if not M('rep') or A.test(isE(x)):
        segs, fill = inf_sup(A, M, x, sw)
        return matches(e, segs, o, sw, fill)
    return uncertain(A, M, reg, e, x, o, sw)
def uncertain(A, M, reg, e, x, o, sw):
    rep = M('rep'); up = M('text'); ue = M('uexp'); p = M('p') or 6
    c = 'e' if ue else 'f'
    if up: c = c.upper()
    S = x[0].sort()
    def cut(t):
        for k, b in enumerate(t):
            if isinstance(b, int) and b in b'eE': return t[:k], t[k:]
        return t, []
    def fl(t, w): return [32] * max(0, w - len(t)) + t
    ni, pi = A.test(isNInf(x[0])), A.test(isPInf(x[1]))
    if ni or pi:
        if ni and pi: n, sfx = Num(c, p, 'N', z3.fpPlusZero(S)), '??'
        elif ni: n, sfx = Num(c, p, 'U', x[1]), '??d'
        else: n, sfx = Num(c, p, 'D', x[0]), '??u'
        if up: sfx = sfx.upper()
        def fill(t, w):
            a, b = cut(t[0]); return fl(a + B(sfx) + b, w)
        return matches(e, [n], o, sw, fill)
    # finite: number ? radius direction exponent
    L, U = Num(c, p, 'D', x[0]), Num(c, p, 'U', x[1])
    m = midterm(reg, x)
    C = {1: [Num(c, p, 'N', m)], 2: [L], 3: [U]}[rep][0]
    out = []
    for cl, l in L.cands(e):
        for cu, u in U.cands(e):
            for cm, q in C.cands(e):
                if rep == 2 and q is not l and e is not None: continue
                if rep == 3 and q is not u and e is not None: continue
                if l.num is None or u.num is None or q.num is None: continue
                a, b = cut(q.text)
                sfx = B({1: '', 2: 'u', 3: 'd'}[rep].upper() if up else {1: '', 2: 'u', 3: 'd'}[rep]) + list(b)
                if len(q.text) and q.x is None: continue
                for sp in range(0, max(1, len(o) - len(a) - len(sfx))):
                    k = len(o) - sp - len(a) - 1 - len(sfx)          # digits of the radius
                    if k < 1 or (sp and len(o) != sw): continue
                    if sp == 0 and len(o) < sw: continue
                    ds = o[sp + len(a) + 1: sp + len(a) + 1 + k]
                    head = beq(o[:sp + len(a) + 1], [32] * sp + a + [63]); tail = beq(o[len(o) - len(sfx):] if sfx else [], sfx)
                    if z3.is_false(head) or z3.is_false(tail): continue
                    isd = [F_ if isinstance(d, int) and d not in DIG else T_ if isinstance(d, int) else SR.inset(d, DIG) for d in ds]
                    if any(z3.is_false(t) for t in isd): continue
                    if k > 1: isd.append(Not(beq(ds[:1], [48])))
                    r = Poly()
                    for d in ds: r = r.mul(10).add(Poly(d - 48) if isinstance(d, int) else dterm(d, 48, 0))
                    sc = lambda t: t.num.mul(Fraction(10) ** (t.x - q.x))
                    dl, du = q.num.add(sc(l), -1), sc(u).add(q.num, -1)        # in units of the last printed digit
                    need = And(cmpc(r.add(dl, -1), '>='), cmpc(r.add(du, -1), '>='))
                    least = Or(cmpc(r, '==') , cmpc(r.add(dl, -1), '<', 1), cmpc(r.add(du, -1), '<', 1))
                    out.append(And(cl, cu, cm, head, tail, *isd, need, least))
    return Or(*out) if out else F_
def midterm(reg, x):
    S = x[0].sort(); f = FM.fmt_of_sort(S)
    return reg.R('avg', 'N', f, (x[0], x[1]))
DECS = {0: 'ill', 4: 'trv', 8: 'def', 12: 'dac', 16: 'com'}
def decorated(A, M, reg, e, x, d, o, sw):
    np = M('punct')
    if A.test(d == 0):
        t = B('NAI' if M('text') else 'nai'); w = M('w')
        p1 = B('' if np else '[') + [32] * max(0, w - 1); p3 = [32] * max(0, w - 1) + B('' if np else ']')
        k = max(0, sw - len(p1) - len(t) - len(p3))
        return beq(o, p1 + [32] * (k // 2) + t + [32] * (k - k // 2) + p3)
    if A.test(isE(x)): return bare(A, M, reg, e, x, o, sw)
    v = A.among([(k, d == k) for k in (4, 8, 12, 16)])
    t = str(v) if M('decm') else DECS[v].upper() if M('text') else DECS[v]
    t = B((' ' if np else '_') + t)
    if len(o) < len(t): return F_
    tail = beq(o[len(o) - len(t):], t)
    return And(tail, bare(A, M, reg, e, x, o[:len(o) - len(t)], sw - len(t)))
NB = 72
def out_harness(name, T, dec, man, pre, note='', budget=150, lens=None):
    """man: {manipulator: list of values}; a single value is fixed"""
    ct = CTY[T]; n = 3 if dec else 2
    ins = [('lo', T), ('hi', T)] + ([('dec', 'u8')] if dec else [])
    body = 'std::ostringstream os;\n'; idx = {}
    for k, vs in man.items():
        mid, names = MAN[k]
        idx[k] = len(ins); ins.append((k, 'i32')); v = 'I(int,%d)' % idx[k]
        if names:
            ex = IO + names[vs[-1]]
            for j in reversed(vs[:-1]): ex = '%s == %d ? %s%s : %s' % (v, j, IO, names[j], ex)
        else: ex = v
        body += ' os.iword(%s%s) = %s;\n' % (IO, mid, ex)
    body += ' long sw = os.iword(%sstring_width_manip_id);\n' % IO
    body += ' F<%s>::operator_interval_to_text(os, %s<%s>(in,0));\n std::string s = os.str();\n' % (ct, 'ID' if dec else 'IV', ct)
    body += ' O(unsigned int,0) = s.size(); O(unsigned char,1) = os.good() && os.iword(%sstring_width_manip_id) == sw; for (int i = 0; i < %d; ++i) O(char,2+i) = i < (int)s.size() ? s[i] : 0;' % (IO, NB)
    outs = [('size', 'u32'), ('good', 'u8')] + [('b%d' % k, 'u8') for k in range(NB)]
    def P(reg, i):
        x = (i[0], i[1])
        return ([isdec(i[2])] if dec else []) + list(pre(x)) + [Or(*[i[idx[k]] == v for v in vs]) for k, vs in man.items()]
    def spec(reg, i, o):
        e = getattr(reg, 'engine', None); x = (i[0], i[1]); d = i[2] if dec else None
        n = conc(o[0] == o[0]) and z3.simplify(o[0])
        if not z3.is_bv_value(n): return [('text', F_)]
        n = n.as_long(); good = [('stream state', o[1] == 1)]
        by = []
        for b in o[2:2 + min(n, NB)]:
            b = z3.simplify(b); by.append(b.as_long() if z3.is_bv_value(b) else b)
        if n > NB:
            if e is not None: return [('text', F_)]
            return []                      # concrete output longer than the window: not judged
        A = Ask(e); out = []
        while True:
            got = {}
            def M(k):
                if k not in idx: return 0
                if k not in got: got[k] = A.among([(v, i[idx[k]] == v) for v in man[k]]) if len(man[k]) > 1 else man[k][0]
                return got[k]
            if dec: ok = And(valid(*x), dvalid(x[0], x[1], d))
            else: ok = valid(*x)
            if not A.test(ok): c = beq(by, [])
            else:
                sw = M('sw'); sw = sw - (1 << 32) if sw >> 31 else sw
                c = decorated(A, M, reg, e, x, d, by, sw) if dec else bare(A, M, reg, e, x, by, sw)
            out.append(Implies(And(*A.cs), c) if A.cs else c)
            if not A.next(): break
        return [('text', And(*out))] + good
    def setup(e):
        initmanip(e)
    ADV = [0.1, -0.1, 1 / 3.0, -2 / 3.0, 1e30, -1e30, 123456.789, 1e-7, 0.0, 1.0, 2.5, -7.25, 99.95]
    def vary(v, rnd):
        if rnd.random() < 0.8:
            a, b = sorted((rnd.choice(ADV) * rnd.choice([1, 1, 3, 1e-5]), rnd.choice(ADV)))
            from se import fmt
            for k, y in ((0, a), (1, b)):
                n, dd = y.as_integer_ratio(); v[k] = fmt.to_bits(SR.round_frac(Fraction(n, dd), 'N', FM.FMT[T]), T) if y else 0
            if dec and rnd.random() < 0.7: v[2] = rnd.choice([4, 8, 12, 16])
        for k, vs in man.items():
            if rnd.random() < 0.5: v[idx[k]] = rnd.choice(vs)
        return v
    h = H(name, body, ins, outs, spec, pre=P, note=note,
          bound='%s %s intervals %s; manipulators %s; every number prints with at most 2 integer digits or an exponent among %s (other lengths are outside the bound)' % ('decorated' if dec else 'bare', ct, note, ', '.join('%s in %s' % (k, vs) for k, vs in man.items()), PR.LENS['e']),
          opts=dict(streams=True, cflags=('-fno-inline',), setup=setup, vary=vary, budget=budget, max_paths=20000, group='out', anyout=False))
    h.prelude = PRE
    return h
FULL = dict(text=[0, 1], num=[0, 1, 2, 3], spec=[0, 1, 2], punct=[0, 1])
def infsups(tier):
    hs = []
    special = lambda x: [Or(isE(x), And(isNInf(x[0]), isPInf(x[1])), Not(valid(*x)))]
    ordinary = lambda x: [valid(*x), Not(isE(x))]
    anyx = lambda x: []
    for T in ('d', 'f') + (('l',) if tier == 'thorough' else ()):
        hs.append(out_harness('special_%s' % T, T, False, dict(text=[0, 1], spec=[0, 1, 2], punct=[0, 1], w=[0, 2, 3, 7], sw=[0, 12, 21]), special, 'empty, entire or invalid'))
        hs.append(out_harness('special_dec_%s' % T, T, True, dict(text=[0, 1], spec=[0, 1, 2], punct=[0, 1], w=[0, 2, 7], sw=[0, 21], decm=[0, 1]), special, 'empty, entire, NaI or invalid'))
        hs.append(out_harness('bounds_%s' % T, T, False, dict(text=[0, 1], num=[0, 1, 2, 3], p=[0, 2], punct=[0, 1]), ordinary, 'nonempty'))
        hs.append(out_harness('bounds_w_%s' % T, T, False, dict(num=[0, 1], w=[0, 9, 3], sw=[0, 25, 40], p=[3], punct=[0, 1]), ordinary, 'nonempty'))
        hs.append(out_harness('bounds_dec_%s' % T, T, True, dict(text=[0, 1], num=[1], punct=[0, 1], decm=[0, 1]), anyx, 'all'))
        hs.append(out_harness('bounds_decw_%s' % T, T, True, dict(num=[3], sw=[0, 31], decm=[0, 1]), anyx, 'all'))
        hs.append(out_harness('spbounds_%s' % T, T, False, dict(text=[0, 1], num=[0, 1, 2, 3], spec=[1], punct=[0, 1], w=[0, 6], sw=[0, 20]), special, 'empty, entire or invalid'))
    return hs
def uncertains(tier):
    hs = []
    unb = lambda x: [Or(Not(valid(*x)), isE(x), isNInf(x[0]), isPInf(x[1]))]
    fin = lambda x: [finite(x[0]), finite(x[1]), le(x[0], x[1])]
    for T in ('d', 'f') + (('l',) if tier == 'thorough' else ()):
        hs.append(out_harness('unc_unbounded_%s' % T, T, False, dict(rep=[1, 2, 3], text=[0, 1], uexp=[0, 1], p=[0, 3], sw=[0, 20]), unb, 'empty, unbounded or invalid'))
        hs.append(out_harness('unc_unbounded_dec_%s' % T, T, True, dict(rep=[1, 2, 3], text=[0, 1], uexp=[0, 1], sw=[0, 24]), unb, 'empty, unbounded or invalid'))
        for rep in (1, 2, 3):
            for ue in (0, 1):
                z = z3.fpPlusZero(FM.FMT[T].sort)
                cases = [('', lambda x: [], '')] if rep > 1 else [('p', lambda x, z=z: [z3.fpGEQ(x[0], z)], ', no negative number'), ('n', lambda x, z=z: [z3.fpLT(x[0], z), z3.fpLEQ(x[1], z)], ', no positive number'), ('m', lambda x, z=z: [z3.fpLT(x[0], z), z3.fpGT(x[1], z)], ', zero inside')]
                for s, c, nt in cases:
                    hs.append(out_harness('unc%d%d%s_%s' % (rep, ue, s, T), T, False, dict(rep=[rep], uexp=[ue], p=[1], sw=[16 if ue else 0], text=[rep & 1]), lambda x, c=c: fin(x) + c(x), 'bounded' + nt, budget=200))
    return hs
