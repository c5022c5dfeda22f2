"""Exception flags: which flags an operation raises, that they are sticky, and that they throw exactly when enabled."""
from .gen import *
ZERO32 = S32(0)
def flag_h(name, T, args, rk, expr, bits, budget=60, summaries=(), cflags=(), two_sum=False, pre=None, extra=None):
    ins = []; ce = []; pos = []; k = 0
    for j, a in enumerate(args):
        kind, t = (a + (None,))[:2] if isinstance(a, tuple) else (a, None)
        pos.append((kind, t, k))
        if kind == 'iv': ins += [('x%dl' % j, t), ('x%du' % j, t)]; ce.append('IV<%s>(in,%d)' % (CTY[t], k)); k += 2
        elif kind == 'dv': ins += [('x%dl' % j, t), ('x%du' % j, t), ('x%dd' % j, 'u8')]; ce.append('ID<%s>(in,%d)' % (CTY[t], k)); k += 3
        elif kind in ('dec', 'deca'): ins.append(('x%dd' % j, 'u8')); ce.append('(D)I(unsigned char,%d)' % k); k += 1
        else: t = t or kind; ins.append(('x%d' % j, t)); ce.append('I(%s,%d)' % (CTY[t], k)); k += 1
    e = expr.replace('FT', 'F<%s>' % CTY[T])
    for j, c in enumerate(ce): e = e.replace('{%d}' % j, c)
    ct = CTY[T]
    store = {'iv': 'OV<%s>(out,0,%s);' % (ct, e), 'dv': 'OD<%s>(out,0,%s);' % (ct, e), 'n': 'O(%s,0) = %s;' % (ct, e), 'b': 'O(unsigned char,0) = %s;' % e, 'u32': 'O(unsigned int,0) = (unsigned int)%s;' % e,
             'nn': '{ std::pair<%s,%s> r = %s; O(%s,0) = r.first; O(%s,1) = r.second; }' % (ct, ct, e, ct, ct), 'ivp': '{ auto r = %s; OV<%s>(out,0,r.first); OV<%s>(out,2,r.second); }' % (e, ct, ct),
             'dvp': '{ auto r = %s; OD<%s>(out,0,r.first); OD<%s>(out,3,r.second); }' % (e, ct, ct), 'dec': 'O(unsigned char,0) = (unsigned char)%s;' % e, 'v': e + ';'}[rk]
    body = '''using namespace p1788::exception; unsigned int thr = 0;
state() = (exception_bits)I(unsigned int,%d); set_throw_exception_cwd((exception_bits)I(unsigned int,%d));
try { char tmp[16 * 10]; void* out = tmp; %s } catch (invalid_operand_exception const&) { thr = 8; } catch (interval_part_of_nai_exception const&) { thr = 4; } catch (possibly_undefined_operation_exception const&) { thr = 2; } catch (undefined_operation_exception const&) { thr = 1; }
O(unsigned int,0) = (unsigned int)state(); O(unsigned int,1) = thr; O(unsigned int,2) = (unsigned int)get_throw_exception_cwd();
O(unsigned int,3) = (undefined_operation() ? 1 : 0) | (possibly_undefined_operation() ? 2 : 0) | (interval_part_of_nai() ? 4 : 0) | (invalid_operand() ? 8 : 0);
set_throw_exception_cwd(none_bit); clear();''' % (k, k + 1, store)
    ins += [('st', 'u32'), ('cwd', 'u32')]
    outs = [('state', 'u32'), ('thrown', 'u32'), ('cwd', 'u32'), ('query', 'u32')]
    def parse(i):
        return [i[q] if KW.get(kind, 1) == 1 else tuple(i[q:q + KW[kind]]) for kind, t, q in pos]
    def P(reg, i):
        cs = [z3.ULE(i[k], S32(15)), z3.ULE(i[k + 1], S32(15))]; a = parse(i)
        for (kind, t, q), v in zip(pos, a):
            if kind == 'dv': cs.append(isdec(v[2]))
            if kind == 'dec': cs.append(isdec(v))
        return cs + (pre(reg, a) if pre else [])
    def S(reg, i, o):
        b = bits(parse(i)); st = i[k] | b
        return [('flags raised', o[0] == st), ('thrown', o[1] == (b & i[k + 1])), ('throw mask', o[2] == i[k + 1]), ('queries', o[3] == st)]
    h = H('flags_' + name, body, ins, outs, S, pre=P, bound='all bit patterns of every argument, all 16 flag states, all 16 throw masks', opts=dict(budget=budget, summaries=list(summaries), group=cflags, cflags=cflags, two_sum=two_sum))
    return h
def inv(args, a):
    b = F_
    for k, v in zip(kinds(args), a):
        if k == 'iv': b = Or(b, Not(valid(*v)))
        if k == 'dv': b = Or(b, Not(dvalid(*v)))
    return b
def std(name, T, args, rk, expr, **k):
    return flag_h(name, T, args, rk, expr, lambda a: If(inv(args, a), S32(8), ZERO32), **k)
def call(fn, n): return 'FT::%s(%s)' % (fn, ','.join('{%d}' % i for i in range(n)))
def guard(s):
    """operations are summarised only where they are called with valid operands (they raise no flag then)"""
    return (lambda xs, ds: And(*[dvalid(*x, d) for x, d in zip(xs, ds)])) if s[2] else (lambda xs, ds: And(*[valid(*x) for x in xs]))
def op_flags(hs, op, T, ts, dec, **kw):
    M = widest(T, *ts); mixed = T != ts[0] or len(set(ts)) > 1
    k = 'dv' if dec else 'iv'
    args = [(k, t) for t in ts] + list(op.ints)
    if op.via: sm = [(op.via[0], M, False)] * (dec or mixed) + [(op.via[0], M, True)] * (dec and mixed)
    else: sm = [(op.name, M, False)] * (dec or mixed) + [(op.name, M, True)] * (dec and mixed)
    nm = kw.pop('nm', None) or '%s_%s%s_%s' % (op.name.strip('#'), T, ''.join(ts), k)
    h = std(nm, T, args, k, call(op.fn, len(args)), cflags=op.cflags, two_sum=op.two_sum, budget=max(op.budget, 240 if op.name in ('ceil', 'floor', 'trunc', 'round_ties_to_even', 'round_ties_to_away') else 90), summaries=sm, **kw)
    h.opts['sumguard'] = guard
    hs.append(h)
def flags(tier):
    from . import rev as RV
    hs = []
    q = tier == 'quick'
    cs = {1: ['d:d', 'f:d'], 2: ['d:dd', 'd:fd'], 3: ['d:ddd', 'f:ddd']}
    if not q: cs = {1: ['d:d', 'f:d', 'f:f', 'l:l', 'd:f'], 2: ['d:dd', 'd:fd', 'f:ff', 'f:dd', 'l:ll', 'l:fd'], 3: ['d:ddd', 'f:ddd', 'f:fff', 'd:fdf', 'l:lll']}
    for name, op in OPS.items():
        if '#' in name: continue
        for c in cs[op.n]:
            T, ts = c.split(':')
            for dec in (False, True): op_flags(hs, op, T, ts, dec)
    two = [('d', 'd'), ('f', 'd')] + ([] if q else [('f', 'f'), ('l', 'l'), ('d', 'f'), ('l', 'd')])
    for k in ('iv', 'dv'):
        for T, u in two:
            for fn in ('sin', 'cos', 'tan'): hs.append(std('%s_%s%s_%s' % (fn, T, u, k), T, [(k, u)], k, call(fn, 1), budget=120))
            for fn in ('inf', 'sup', 'mid', 'rad', 'wid', 'mag', 'mig'): hs.append(std('%s_%s%s_%s' % (fn, T, u, k), T, [(k, u)], 'n', call(fn, 1)))
            hs.append(std('mid_rad_%s%s_%s' % (T, u, k), T, [(k, u)], 'nn', call('mid_rad', 1)))
            for fn in BOOL2: hs.append(std('%s_%s%s_%s' % (fn, T, u, k), T, [(k, T), (k, u)], 'b', call(fn, 2)))
            hs.append(std('overlap_%s%s_%s' % (T, u, k), T, [(k, T), (k, u)], 'u32', call('overlap', 2)))
            hs.append(std('is_member_%s%s_%s' % (T, u, k), T, [('n', u), (k, T)], 'b', call('is_member', 2)))
            for fn in ('intersection', 'convex_hull'): hs.append(std('%s_%s%s_%s' % (fn, T, u, k), T, [(k, T), (k, u)], k, call(fn, 2)))
            hs.append(std('mul_rev_to_pair_%s%s_%s' % (T, u, k), T, [(k, u), (k, T)], k + 'p'.replace('iv', ''), call('mul_rev_to_pair', 2), budget=120))
        for T in 'd' if q else 'dfl':
            for fn in BOOL1: hs.append(std('%s_%s_%s' % (fn, T, k), T, [(k, T)], 'b', call(fn, 1)))
        for fn in ('sqr_rev', 'abs_rev', 'cosh_rev', 'pown_rev', 'mul_rev'):
            op = OPS[fn + '#']; nb = RV.NB[fn]
            pre = (lambda reg, a: [a[-1] >= -1]) if op.ints else None
            for c in ['d' * (nb + 1), 'd' * nb, 'f' + 'd' * nb] + ([] if q else ['f' * (nb + 1), 'l' * nb]):
                T = 'd' if c[0] == 'd' else c[0]; ts = c if c[0] == 'd' or len(c) == nb else c
                direct = k == 'iv' and len(ts) == nb + 1 and len(set(ts)) == 1
                args = [(k, t) for t in ts] + list(op.ints)
                h = std('%s_%s%s_%s' % (fn, T, ts, k), T, args, k, call(fn, len(args)), pre=pre, budget=120, summaries=[] if direct or (k == 'iv' and len(ts) == nb and len(set(T + ts)) == 1) else [(op.name, widest(T, *ts), False)])
                h.opts['sumguard'] = guard; h.opts['lattice'] = True
                hs.append(h)
    for T in 'd' if q else 'dfl': hs.append(std('is_nai_%s' % T, T, [('dv', T)], 'b', call('is_nai', 1)))
    # construction: undefined-operation and interval-part flags
    b = lambda c, v: If(c, S32(v), ZERO32)
    for T, L, U in [('d', 'd', 'd'), ('f', 'd', 'f')] + ([] if q else [('f', 'f', 'f'), ('d', 'f', 'd'), ('l', 'l', 'l'), ('d', 'l', 'd')]):
        n = T + L + U
        hs.append(flag_h('nums_' + n, T, [('n', L), ('n', U)], 'iv', call('nums_to_interval', 2), lambda a: b(Not(okb(*a)), 1)))
        hs.append(flag_h('nums_decorated_' + n, T, [('n', L), ('n', U)], 'dv', call('nums_to_decorated_interval', 2), lambda a: b(Not(okb(*a)), 1)))
        hs.append(flag_h('nums_dec_' + n, T, [('n', L), ('n', U), 'deca'], 'dv', call('nums_dec_to_decorated_interval', 3),
            lambda a: If(Not(isdec(a[2])), S32(8), b(Not(And(a[2] != D8(ILL), okb(*a[:2]), Or(a[2] != D8(COM), bounded(*a[:2])))), 1))))
    for T, u in two:
        cp = 'copy' if T == u else 'convert_type'
        for k in ('iv', 'dv'): hs.append(std('%s_%s%s_%s' % (cp, T, u, k), T, [(k, u)], k, call(cp, 1)))
        hs.append(flag_h('interval_part_%s%s' % (T, u), T, [('dv', u)], 'iv', call('interval_part', 1), lambda a: If(Not(dvalid(*a[0])), S32(8), b(isnai(*a[0]), 4))))
        hs.append(std('new_dec_%s%s' % (T, u), T, [('iv', u)], 'dv', call('new_dec', 1)))
        hs.append(flag_h('set_dec_%s%s' % (T, u), T, [('iv', u), 'deca'], 'dv', call('set_dec', 2), lambda a: b(Or(Not(isdec(a[1])), Not(valid(*a[0]))), 8)))
    hs.append(std('decoration_part_d', 'd', [('dv', 'd')], 'dec', call('decoration_part', 1)))
    # the signalling interface itself
    for nm, bit in (('undefined_operation', 1), ('possibly_undefined_operation', 2), ('interval_part_of_nai', 4), ('invalid_operand', 8)):
        hs.append(flag_h('signal_' + nm, 'd', [], 'v', 'signal_%s()' % nm, (lambda bit: lambda a: S32(bit))(bit)))
    def clr(reg, i, o): return [('cleared', o[0] == ZERO32), ('result', o[1] == ZERO32), ('mask kept', o[2] == i[1]), ('set mask', o[3] == i[1])]
    h = H('flags_clear', 'using namespace p1788::exception; state() = (exception_bits)I(unsigned int,0); O(unsigned int,3) = (unsigned int)set_throw_exception_cwd((exception_bits)I(unsigned int,1)); O(unsigned int,1) = (unsigned int)clear(); O(unsigned int,0) = (unsigned int)state(); O(unsigned int,2) = (unsigned int)get_throw_exception_cwd(); set_throw_exception_cwd(none_bit);',
          [('st', 'u32'), ('cwd', 'u32')], [('state', 'u32'), ('r', 'u32'), ('cwd', 'u32'), ('set', 'u32')], clr, pre=lambda reg, i: [z3.ULE(i[0], S32(15)), z3.ULE(i[1], S32(15))], bound='all flag states and throw masks')
    hs.append(h)
    return hs
