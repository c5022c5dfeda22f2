"""Generic harness builder for operations that are not forward interval functions, and their reference semantics."""
from .lib import *
KW = {'iv': 2, 'dv': 3, 'n': 1, 'dec': 1, 'i': 1, 'nn': 2, 'b': 1, 'u32': 1, 'u8': 1, 'deca': 1, 'ivp': 4, 'dvp': 6}

def fh(name, T, args, ret, expr, spec, pre=None, opts=None, state=False, bound=None, note=''):
    """expr: C++ expression with {0},{1}.. argument placeholders and FT for the flavor.  spec(reg, args, out) -> [(label, condition)]"""
    ins = []; ce = []; pos = []
    k = 0
    for j, a in enumerate(args):
        kind, t = (a + (None,))[:2] if isinstance(a, tuple) else (a, None)
        pos.append((kind, t, k))
        if kind == 'iv': ins += [('x%dl' % j, t), ('x%du' % j, t)]; ce.append('IV<%s>(in,%d)' % (CTY[t], k)); k += 2
        elif kind == 'dv': ins += [('x%dl' % j, t), ('x%du' % j, t), ('x%dd' % j, 'u8')]; ce.append('ID<%s>(in,%d)' % (CTY[t], k)); k += 3
        elif kind in ('dec', 'deca'): ins.append(('x%dd' % j, 'u8')); ce.append('(D)I(unsigned char,%d)' % k); k += 1
        else: t = t or kind; ins.append(('x%d' % j, t)); ce.append('I(%s,%d)' % (CTY[t], k)); k += 1
    ft = 'F<%s>' % CTY[T]
    rk, rt = (ret + (None,))[:2] if isinstance(ret, tuple) else (ret, None)
    ct = CTY.get(rt)
    e = expr.replace('FT', ft)
    for j, c in enumerate(ce): e = e.replace('{%d}' % j, c)
    pr = ''
    if state:
        ins.append(('st', 'u32')); pos.append(('st', None, k)); pr = 'p1788::exception::state() = (p1788::exception::exception_bits)I(unsigned int,%d);' % k
    if rk == 'iv': body = 'OV<%s>(out,0,%s);' % (ct, e); outs = [('rl', rt), ('ru', rt)]
    elif rk == 'dv': body = 'OD<%s>(out,0,%s);' % (ct, e); outs = [('rl', rt), ('ru', rt), ('rd', 'u8')]
    elif rk == 'n': body = 'O(%s,0) = %s;' % (ct, e); outs = [('r', rt)]
    elif rk == 'nn': body = 'std::pair<%s,%s> r = %s; O(%s,0) = r.first; O(%s,1) = r.second;' % (ct, ct, e, ct, ct); outs = [('m', rt), ('r', rt)]
    elif rk == 'b': body = 'O(unsigned char,0) = (%s) ? 1 : 0;' % e; outs = [('r', 'b')]
    elif rk == 'dec': body = 'O(unsigned char,0) = (unsigned char)(%s);' % e; outs = [('rd', 'u8')]
    elif rk == 'u32': body = 'O(unsigned int,0) = (unsigned int)(%s);' % e; outs = [('r', 'u32')]
    elif rk == 'ivp': body = 'auto r = %s; OV<%s>(out,0,r.first); OV<%s>(out,2,r.second);' % (e, ct, ct); outs = [('al', rt), ('au', rt), ('bl', rt), ('bu', rt)]
    elif rk == 'dvp': body = 'auto r = %s; OD<%s>(out,0,r.first); OD<%s>(out,3,r.second);' % (e, ct, ct); outs = [('al', rt), ('au', rt), ('ad', 'u8'), ('bl', rt), ('bu', rt), ('bd', 'u8')]
    body = pr + body
    if state: body += 'O(unsigned int,%d) = (unsigned int)p1788::exception::state();' % len(outs); outs = outs + [('state', 'u32')]
    def parse(i):
        o = []
        for kind, t, k in pos:
            w = KW.get(kind, 1); o.append(i[k] if w == 1 else tuple(i[k:k + w]))
        return o
    def P(reg, i):
        a = parse(i); cs = []
        for (kind, t, k), v in zip(pos, a):
            if kind == 'dv': cs.append(isdec(v[2]))
            if kind == 'dec': cs.append(isdec(v))
            if kind == 'st': cs.append(z3.ULE(v, z3.BitVecVal(15, 32)))
        return cs + (list(pre(reg, a)) if pre else [])
    def S(reg, i, o): return spec(reg, parse(i), o)
    return H(name, body, ins, outs, S, pre=P, opts=dict(opts or {}), bound=bound or 'all bit patterns of every argument', note=note)

def same(a, b): return Or(And(isNaN(a), isNaN(b)), z3.fpEQ(a, b))
def bad_arg(kind, v):
    if kind == 'iv': return Not(valid(*v))
    if kind == 'dv': return Or(Not(dvalid(*v)), isnai(*v))
    return F_
def kinds(args): return [a[0] if isinstance(a, tuple) else a for a in args]
def q1(b): return b == z3.BitVecVal(1, 8)
def isE(x): return isempty(x[0], x[1])

# ---------------------------------------------------------------- comparisons (IEEE 1788-2015 tables 10.3, 10.4 on bounds)
def leI(a, b): return le(a, b)
def ltpI(a, b):   # a < b or both the same infinity
    return Or(lt(a, b), And(isInf(a), isInf(b), isNeg(a) == isNeg(b)))
BOOL1 = {
 'is_empty': lambda x: isE(x), 'is_entire': lambda x: And(isNInf(x[0]), isPInf(x[1])),
 'is_common_interval': lambda x: And(Not(isE(x)), finite(x[0]), finite(x[1])), 'is_singleton': lambda x: eq(x[0], x[1]),
}
def both(f): return lambda x, y: If(Or(isE(x), isE(y)), And(isE(x), isE(y)), f(x, y))
BOOL2 = {
 'equal': both(lambda x, y: And(eq(x[0], y[0]), eq(x[1], y[1]))),
 'subset': lambda x, y: If(isE(x), T_, If(isE(y), F_, And(ge(x[0], y[0]), le(x[1], y[1])))),
 'less': both(lambda x, y: And(le(x[0], y[0]), le(x[1], y[1]))),
 'precedes': lambda x, y: Or(isE(x), isE(y), le(x[1], y[0])),
 'interior': lambda x, y: If(isE(x), T_, If(isE(y), F_, And(ltpI(y[0], x[0]), ltpI(x[1], y[1])))),
 'strictly_less': both(lambda x, y: And(ltpI(x[0], y[0]), ltpI(x[1], y[1]))),
 'strictly_precedes': lambda x, y: Or(isE(x), isE(y), lt(x[1], y[0])),
 'disjoint': lambda x, y: Or(isE(x), isE(y), lt(x[1], y[0]), lt(y[1], x[0])),
}
def bool_h(fn, T, args, f):
    ks = kinds(args)
    def spec(reg, a, o):
        bad = Or(*[bad_arg(k, v) for k, v in zip(ks, a)] + [F_])
        return [('value', q1(o[0]) == And(Not(bad), f(*a)))]
    nm = '%s_%s_%s' % (fn, T, '_'.join(k + t for k, t in [(a + ('',))[:2] for a in args]))
    return fh(nm, T, args, 'b', 'FT::%s(%s)' % (fn, ','.join('{%d}' % i for i in range(len(args)))), spec)
def bools(tier):
    hs = []
    ts = 'df' if tier == 'quick' else 'dfl'
    for fn, f in BOOL1.items():
        for t in ts:
            for k in ('iv', 'dv'): hs.append(bool_h(fn, t, [(k, t)], f))
    for t in ts:
        hs.append(fh('is_nai_%s' % t, t, [('dv', t)], 'b', 'FT::is_nai({0})', lambda reg, a, o: [('value', q1(o[0]) == isnai(*a[0]))]))
    pairs = [('d', 'd'), ('f', 'f'), ('d', 'f'), ('f', 'd')] + ([('l', 'l'), ('l', 'd'), ('f', 'l'), ('d', 'l'), ('l', 'f')] if tier != 'quick' else [])
    for fn, f in BOOL2.items():
        for t, u in pairs:
            for k in ('iv', 'dv'): hs.append(bool_h(fn, t, [(k, t), (k, u)], f))
    for t, u in pairs:
        for k in ('iv', 'dv'):
            def spec(reg, a, o, k=k):
                m, x = a
                return [('value', q1(o[0]) == And(Not(bad_arg(k, x)), Not(isE(x)), finite(m), le(x[0], m), le(m, x[1])))]
            hs.append(fh('is_member_%s%s_%s' % (t, u, k), t, [('n', u), (k, t)], 'b', 'FT::is_member({0},{1})', spec))
    return hs
# ---------------------------------------------------------------- overlap (IEEE 1788-2015 table 10.7)
OV = {n: 1 << k for k, n in enumerate('both_empty first_empty second_empty before meets overlaps starts contained_by finishes equal finished_by contains started_by overlapped_by met_by after'.split())}
def ovl(x, y):
    a, b = x[0], x[1]; c, d = y[0], y[1]
    V = lambda n: z3.BitVecVal(OV[n], 32)
    rows = [('before', lt(b, c)), ('meets', And(lt(a, b), eq(b, c), lt(c, d))), ('overlaps', And(lt(a, c), lt(c, b), lt(b, d))), ('starts', And(eq(a, c), lt(b, d))),
            ('contained_by', And(lt(c, a), lt(b, d))), ('finishes', And(lt(c, a), eq(b, d))), ('equal', And(eq(a, c), eq(b, d))), ('finished_by', And(lt(a, c), eq(b, d))),
            ('contains', And(lt(a, c), lt(d, b))), ('started_by', And(eq(a, c), lt(d, b))), ('overlapped_by', And(lt(c, a), lt(a, d), lt(d, b))),
            ('met_by', And(lt(c, d), eq(d, a), lt(a, b))), ('after', lt(d, a))]
    r = z3.BitVecVal(0, 32)
    for n, c_ in reversed(rows): r = If(c_, V(n), r)
    return If(isE(x), If(isE(y), V('both_empty'), V('first_empty')), If(isE(y), V('second_empty'), r))
def overlaps(tier):
    hs = []
    pairs = [('d', 'd'), ('f', 'f'), ('d', 'f'), ('f', 'd')] + ([('l', 'l'), ('l', 'd'), ('f', 'l')] if tier != 'quick' else [])
    for t, u in pairs:
        for k in ('iv', 'dv'):
            def spec(reg, a, o, k=k):
                x, y = a
                return [('state', o[0] == If(Or(bad_arg(k, x), bad_arg(k, y)), z3.BitVecVal(0, 32), ovl(x, y)))]
            hs.append(fh('overlap_%s%s_%s' % (t, u, k), t, [(k, t), (k, u)], 'u32', 'FT::overlap({0},{1})', spec))
    return hs
# ---------------------------------------------------------------- set operations
def r_inter(c, xs, i):
    (a, b), (p, q) = [(c.w(u), c.w(v)) for u, v in xs]
    return Or(lt(b, p), lt(q, a)), mx(a, p), mn(b, q)
def r_hullop(c, xs):
    (a, b), (p, q) = [(c.w(u), c.w(v)) for u, v in xs]
    ex, ey = isempty(a, b), isempty(p, q)
    return And(ex, ey), If(ex, p, If(ey, a, mn(a, p))), If(ex, q, If(ey, b, mx(b, q)))
def setops(tier):
    hs = []
    combos = ['d:dd', 'f:ff', 'f:dd', 'd:fd', 'f:df'] + (['l:ll', 'l:df', 'd:ld', 'f:ll', 'd:ff'] if tier != 'quick' else [])
    for cb in combos:
        T, ts = cb.split(':'); M = widest(T, *ts)
        for k in ('iv', 'dv'):
            for op in ('intersection', 'convex_hull'):
                def spec(reg, a, o, k=k, op=op, T=T, M=M):
                    x, y = a; c = Ctx(reg, M)
                    bad = Or(bad_arg(k, x), bad_arg(k, y))
                    if op == 'intersection':
                        e, lo, hi = r_inter(c, [x[:2], y[:2]], []); e = Or(isE(x), isE(y), e)
                    else: e, lo, hi = r_hullop(c, [x[:2], y[:2]])
                    lo, hi = hull(reg, T, M, lo, hi)
                    post = out_iv(Or(bad, e), o[0], o[1], lo, hi)
                    if k == 'dv': post.append(('decoration', o[2] == If(bad, D8(ILL), D8(TRV))))
                    return post
                hs.append(fh('%s_%s_%s_%s' % (op, T, ts, k), T, [(k, ts[0]), (k, ts[1])], (k, T), 'FT::%s({0},{1})' % op, spec))
    return hs
# ---------------------------------------------------------------- numeric functions
def negz(x): return And(isZero(x), isNeg(x))
def posz(x): return And(isZero(x), isPos(x))
def nums(tier):
    hs = []
    pairs = [('d', 'd'), ('f', 'f'), ('d', 'f'), ('f', 'd')] + ([('l', 'l'), ('l', 'd'), ('f', 'l'), ('d', 'l')] if tier != 'quick' else [])
    for T, u in pairs:
        for k in ('iv', 'dv'): nums1(hs, T, u, k)
    return hs
def nums1(hs, T, u, k):
    M = widest(T, u)
    def mk(fn, f, T=T, u=u, M=M, k=k, ret='n', **kw):
        def spec(reg, a, o):
            x = a[0]; bad = bad_arg(k, x); c = Ctx(reg, M)
            return f(reg, c, (x[0], x[1]), o, bad)
        hs.append(fh('%s_%s%s_%s' % (fn, T, u, k), T, [(k, u)], (ret, T), 'FT::%s({0})' % fn, spec, **kw))
    def nar(reg, r, v, T=T, M=M): return v if T == M else reg.R('id', r, FMT[T], (v,))
    def s_inf(reg, c, x, o, bad):
        v = nar(reg, 'D', c.w(x[0])); e = isE(x)
        return [('value', If(bad, isNaN(o[0]), If(e, isPInf(o[0]), z3.fpEQ(o[0], v)))), ('sign of zero', Implies(isZero(o[0]), isNeg(o[0])))]
    def s_sup(reg, c, x, o, bad):
        v = nar(reg, 'U', c.w(x[1])); e = isE(x)
        return [('value', If(bad, isNaN(o[0]), If(e, isNInf(o[0]), z3.fpEQ(o[0], v)))), ('sign of zero', Implies(isZero(o[0]), isPos(o[0])))]
    def s_wid(reg, c, x, o, bad):
        v = nar(reg, 'U', c.R('add', 'U', c.w(x[1]), z3.fpNeg(c.w(x[0]))))
        return [('value', If(Or(bad, isE(x)), isNaN(o[0]), z3.fpEQ(o[0], v))), ('sign of zero', Implies(isZero(o[0]), isPos(o[0])))]
    def s_mag(reg, c, x, o, bad):
        v = nar(reg, 'U', maxabs(c, x))
        return [('value', If(Or(bad, isE(x)), isNaN(o[0]), z3.fpEQ(o[0], v)))]
    def s_mig(reg, c, x, o, bad):
        v = nar(reg, 'D', minabs(c, x))
        return [('value', If(Or(bad, isE(x)), isNaN(o[0]), z3.fpEQ(o[0], v)))]
    def midv(reg, x, T=T, u=u):
        f = FMT[T]; big = z3.simplify(F_max(T))
        av = reg.R('avg', 'N', f, tuple(x) if T == u else tuple(x))
        return If(And(isInf(x[0]), isInf(x[1])), zero(f.sort), If(isInf(x[0]), z3.fpNeg(big), If(isInf(x[1]), big, av)))
    def s_mid(reg, c, x, o, bad):
        return [('value', If(Or(bad, isE(x)), isNaN(o[0]), z3.fpEQ(o[0], midv(reg, x)))), ('sign of zero', Implies(isZero(o[0]), isPos(o[0])))]
    def radv(reg, c, x, m):
        # smallest number r with x inside [m-r, m+r], m the midpoint actually returned
        m = c.w(m)
        return nar(reg, 'U', mx(c.R('add', 'U', m, z3.fpNeg(c.w(x[0]))), c.R('add', 'U', c.w(x[1]), z3.fpNeg(m))))
    def s_rad(reg, c, x, o, bad):
        return [('value', If(Or(bad, isE(x)), isNaN(o[0]), z3.fpEQ(o[0], radv(reg, c, x, midv(reg, x)))))]
    def s_mr(reg, c, x, o, bad):
        e = Or(bad, isE(x)); m = midv(reg, x)
        return [('mid', If(e, isNaN(o[0]), z3.fpEQ(o[0], m))), ('rad', If(e, isNaN(o[1]), z3.fpEQ(o[1], radv(reg, c, x, m))))]
    mk('inf', s_inf); mk('sup', s_sup); mk('wid', s_wid); mk('mag', s_mag); mk('mig', s_mig); mk('mid', s_mid); mk('rad', s_rad); mk('mid_rad', s_mr, ret='nn')
def F_max(T):
    f = FMT[T]; s = f.sort
    return z3.fpFP(z3.BitVecVal(0, 1), z3.BitVecVal((1 << f.eb) - 2, f.eb), z3.BitVecVal(-1, f.p - 1))

# ---------------------------------------------------------------- construction and conversion
UNDEF_OP, PART_NAI, INVALID = 1, 4, 8
def S32(v): return z3.BitVecVal(v, 32)
def flag(st, c, bit): return If(c, st | S32(bit), st)
def okb(l, u): return And(Not(isNaN(l)), Not(isNaN(u)), le(l, u), Not(isPInf(l)), Not(isNInf(u)))
def narrow(reg, T, l, u):
    """tightest enclosure in T of bounds of any formats"""
    return reg.R('id', 'D', FMT[T], (l,)), reg.R('id', 'U', FMT[T], (u,))
def ctors(tier):
    hs = []
    srcs = [('d', 'dd'), ('f', 'ff'), ('f', 'dd'), ('d', 'fd'), ('f', 'df'), ('f', 'fd')] + ([('l', 'll'), ('d', 'll'), ('f', 'll'), ('l', 'fd'), ('d', 'lf'), ('f', 'dl'), ('d', 'dl')] if tier != 'quick' else [])
    for T, ts in srcs:
        L, U = ts
        same_t = T == L == U
        def s_num(reg, a, o, T=T):
            l, u, st = a; ok = okb(l, u); lo, hi = narrow(reg, T, l, u)
            return out_iv(Not(ok), o[0], o[1], lo, hi) + [('flags', o[2] == flag(st, Not(ok), UNDEF_OP))]
        def s_numd(reg, a, o, T=T):
            l, u, st = a; ok = okb(l, u); lo, hi = narrow(reg, T, l, u)
            d = If(Not(ok), D8(ILL), If(bounded(lo, hi), D8(COM), D8(DAC)))
            return out_iv(Not(ok), o[0], o[1], lo, hi) + [('decoration', o[2] == d), ('flags', o[3] == flag(st, Not(ok), UNDEF_OP))]
        def s_nd(reg, a, o, T=T):
            l, u, d, st = a; vd = isdec(d)
            ok = And(vd, d != D8(ILL), okb(l, u), Or(d != D8(COM), bounded(l, u))); lo, hi = narrow(reg, T, l, u)
            dd = If(Not(ok), D8(ILL), If(bounded(lo, hi), d, decmin(d, D8(DAC))))
            return out_iv(Not(ok), o[0], o[1], lo, hi) + [('decoration', o[2] == dd), ('flags', o[3] == If(Not(vd), st | S32(INVALID), flag(st, Not(ok), UNDEF_OP)))]
        n = '%s_%s' % (T, ts)
        hs.append(fh('nums_' + n, T, [('n', L), ('n', U)], ('iv', T), 'FT::nums_to_interval({0},{1})', s_num, state=True))
        hs.append(fh('nums_decorated_' + n, T, [('n', L), ('n', U)], ('dv', T), 'FT::nums_to_decorated_interval({0},{1})', s_numd, state=True))
        hs.append(fh('nums_dec_' + n, T, [('n', L), ('n', U), 'deca'], ('dv', T), 'FT::nums_dec_to_decorated_interval({0},{1},{2})', s_nd, state=True))
    for T, u in [('d', 'd'), ('f', 'f'), ('f', 'd'), ('d', 'f')] + ([('l', 'l'), ('d', 'l'), ('f', 'l'), ('l', 'd')] if tier != 'quick' else []):
        def conv(reg, x, T=T, u=u): return (x[0], x[1]) if T == u else narrow(reg, T, *x[:2])
        def s_copy(reg, a, o, conv=conv):
            x, st = a; bad = Not(valid(*x)); lo, hi = conv(reg, x)
            return out_iv(Or(bad, isE(x)), o[0], o[1], lo, hi) + [('flags', o[2] == flag(st, bad, INVALID))]
        def s_copyd(reg, a, o, conv=conv):
            x, st = a; bad = Not(dvalid(*x)); lo, hi = conv(reg, x)
            d = If(bad, D8(ILL), If(And(x[2] == D8(COM), Not(bounded(lo, hi))), D8(DAC), x[2]))
            return out_iv(Or(bad, isE(x)), o[0], o[1], lo, hi) + [('decoration', o[2] == d), ('flags', o[3] == flag(st, bad, INVALID))]
        def s_part(reg, a, o, conv=conv):
            x, st = a; bad = Not(dvalid(*x)); lo, hi = conv(reg, x)
            return out_iv(Or(bad, isE(x)), o[0], o[1], lo, hi) + [('flags', o[2] == If(bad, st | S32(INVALID), flag(st, isnai(*x), PART_NAI)))]
        def s_new(reg, a, o, conv=conv):
            x, st = a; bad = Not(valid(*x)); lo, hi = conv(reg, x)
            d = If(bad, D8(ILL), If(isE(x), D8(TRV), If(bounded(lo, hi), D8(COM), D8(DAC))))
            return out_iv(Or(bad, isE(x)), o[0], o[1], lo, hi) + [('decoration', o[2] == d), ('flags', o[3] == flag(st, bad, INVALID))]
        def s_set(reg, a, o, conv=conv):
            x, d, st = a; nai = Or(Not(isdec(d)), Not(valid(*x)), d == D8(ILL)); lo, hi = conv(reg, x)
            dd = If(nai, D8(ILL), If(isE(x), D8(TRV), If(And(d == D8(COM), Not(bounded(lo, hi))), D8(DAC), d)))
            return out_iv(Or(nai, isE(x)), o[0], o[1], lo, hi) + [('decoration', o[2] == dd), ('flags', o[3] == flag(st, Or(Not(isdec(d)), Not(valid(*x))), INVALID))]
        n = '%s%s' % (T, u); cp = 'copy' if T == u else 'convert_type'
        hs.append(fh(cp + '_' + n, T, [('iv', u)], ('iv', T), 'FT::%s({0})' % cp, s_copy, state=True))
        hs.append(fh(cp + '_dec_' + n, T, [('dv', u)], ('dv', T), 'FT::%s({0})' % cp, s_copyd, state=True))
        hs.append(fh('interval_part_' + n, T, [('dv', u)], ('iv', T), 'FT::interval_part({0})', s_part, state=True))
        hs.append(fh('new_dec_' + n, T, [('iv', u)], ('dv', T), 'FT::new_dec({0})', s_new, state=True))
        hs.append(fh('set_dec_' + n, T, [('iv', u), 'deca'], ('dv', T), 'FT::set_dec({0},{1})', s_set, state=True))
    for T in ('d', 'f') if tier == 'quick' else ('d', 'f', 'l'):
        def s_dp(reg, a, o):
            x, st = a; bad = Not(dvalid(*x)); return [('decoration', o[0] == If(bad, D8(ILL), x[2])), ('flags', o[1] == flag(st, bad, INVALID))]
        hs.append(fh('decoration_part_%s' % T, T, [('dv', T)], 'dec', 'FT::decoration_part({0})', s_dp, state=True))
        hs.append(fh('is_valid_%s' % T, T, [('iv', T)], 'b', 'FT::is_valid({0})', lambda reg, a, o: [('value', q1(o[0]) == valid(*a[0])), ('flags', o[1] == flag(a[1], Not(valid(*a[0])), INVALID))], state=True))
        hs.append(fh('is_valid_dec_%s' % T, T, [('dv', T)], 'b', 'FT::is_valid({0})', lambda reg, a, o: [('value', q1(o[0]) == dvalid(*a[0])), ('flags', o[1] == flag(a[1], Not(dvalid(*a[0])), INVALID))], state=True))
        for fn, l, u, d in (('empty', None, None, None), ('empty_dec', None, None, TRV), ('entire', 1, 1, None), ('entire_dec', 1, 1, DAC), ('nai', None, None, ILL)):
            def s_c(reg, a, o, l=l, d=d):
                r = [('bounds', And(isNInf(o[0]), isPInf(o[1])) if l else And(isNaN(o[0]), isNaN(o[1]))), ('flags', o[-1] == a[-1])]
                return r + ([('decoration', o[2] == D8(d))] if d is not None else [])
            hs.append(fh('%s_%s' % (fn, T), T, [], ('iv' if d is None else 'dv', T), 'FT::%s()' % fn, s_c, state=True))
    return hs
