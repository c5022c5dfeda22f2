"""Decorations and overlap states as text, and the stream manipulators."""
from .gen import *
from .text import PRE, initmanip, parse_template
from .out import MAN, IO, NB, B, beq, DECS
from se import streams as SR
WSC = b' \t\n\v\f\r'
MANIPS = {
 'text': ['lower_case', 'upper_case'], 'rep': ['inf_sup_form', 'uncertain_form', 'uncertain_up_form', 'uncertain_down_form'],
 'num': ['decimal_scientific', 'decimal', 'scientific', 'hex'], 'spec': ['special_text', 'special_bounds', 'special_no_bounds'],
 'punct': ['punctuation', 'no_punctuation'], 'uexp': ['no_uncertain_exponent', 'uncertain_exponent'], 'decm': ['dec_alpha', 'dec_numeric'],
 'ovl': ['overlapping_alpha', 'overlapping_numeric'], 'sw': ['string_width'], 'w': ['width'], 'p': ['precision'],
}
MID = dict({k: v[0] for k, v in MAN.items()}, ovl='overlapping_manip_id')
MNAME = dict({k: v[1] for k, v in MAN.items()}, ovl=['overlapping_alpha_representation', 'overlapping_numeric_representation'])
STATES = ['undefined', 'both_empty', 'first_empty', 'second_empty', 'before', 'meets', 'overlaps', 'starts', 'contained_by', 'finishes', 'equal', 'finished_by', 'contains', 'started_by', 'overlapped_by', 'met_by', 'after']
FLAT = [(k, n) for k in MANIPS for n in MANIPS[k] if k not in ('sw', 'w', 'p')]
def mk(name, body, ins, outs, spec, pre, bound, setup=None, vary=None, note=''):
    def st(e):
        if setup: setup(e)
        initmanip(e)
    h = H(name, body, ins, outs, spec, pre=pre, note=note, bound=bound, opts=dict(streams=True, cflags=('-fno-inline',), setup=st, vary=vary, budget=100, max_paths=20000, group='io'))
    h.prelude = PRE
    return h
def obytes(o):
    out = []
    for b in o:
        b = z3.simplify(b); out.append(b.as_long() if z3.is_bv_value(b) else b)
    return out
def outspec(pairs, base):
    """o[base] the size, o[base+1] the stream state, then the bytes; pairs: [(condition, text)]"""
    def f(o):
        n = z3.simplify(o[base])
        if not z3.is_bv_value(n): return [('text', F_)]
        by = obytes(o[base + 2:base + 2 + min(n.as_long(), 40)])
        return [('text', And(*[Implies(c, beq(by, B(t)) if n.as_long() <= 40 else F_) for c, t in pairs])), ('stream state', o[base + 1] == 1)]
    return f
SEQ = [None] + FLAT
def seq_out(kind, fam):
    """a sequence of two manipulators, then a decoration or an overlap state"""
    body = 'std::ostringstream os;\n'
    for j in (0, 1): body += ' switch (I(int,%d)) {%s }\n' % (j, ''.join(' case %d: os << %s%s; break;' % (SEQ.index(q), IO, q[1]) for q in fam if q))
    if kind == 'dec': body += ' os << (D)I(unsigned char,2);'
    else: body += ' os << (p1788::overlapping::overlapping_state)I(unsigned int,2);'
    body += ' std::string s = os.str(); O(unsigned int,0) = s.size(); O(unsigned char,1) = os.good(); for (int i = 0; i < 40; ++i) O(char,2+i) = i < (int)s.size() ? s[i] : 0;'
    vals = {k: t for k, t in DECS.items()} if kind == 'dec' else {(1 << (k - 1) if k else 0): t for k, t in enumerate(STATES)}
    mode = 'decm' if kind == 'dec' else 'ovl'
    def pre(reg, i):
        return [Or(*[i[j] == SEQ.index(q) for q in fam]) for j in (0, 1)] + [Or(*[i[2] == v for v in vals])]
    def spec(reg, i, o):
        pairs = []
        def setting(k, n):
            """the value of a two-valued setting is n"""
            def of(j): return Or(*[i[j] == SEQ.index((k, MANIPS[k][n]))])
            def anyof(j): return Or(*[i[j] == SEQ.index((k, q)) for q in MANIPS[k]])
            d = Or(of(1), And(Not(anyof(1)), of(0)))
            return d if n else Or(d, And(Not(anyof(0)), Not(anyof(1))))
        for v, t in vals.items():
            for num in (0, 1):
                for up in (0, 1):
                    pairs.append((And(i[2] == v, setting(mode, num), setting('text', up)), str(v) if num else t.upper() if up else t))
        return outspec(pairs, 0)(o)
    outs = [('size', 'u32'), ('good', 'u8')] + [('b%d' % k, 'u8') for k in range(40)]
    def vary(v, rnd):
        v[0] = SEQ.index(rnd.choice(fam)); v[1] = SEQ.index(rnd.choice(fam)); v[2] = rnd.choice(sorted(vals)); return v
    return mk('write_%s' % kind, body, [('m1', 'i32'), ('m2', 'i32'), ('v', 'u8' if kind == 'dec' else 'u32')], outs, spec, pre,
              'all %s, every sequence of up to two of the manipulators %s on a fresh stream' % ('five decorations' if kind == 'dec' else 'seventeen overlap states', ', '.join(q[1] for q in fam if q)), vary=vary)
def manip(k, n):
    """one manipulator on a stream whose settings are arbitrary"""
    ks = list(MID)
    body = 'std::ostringstream os;\n' + ''.join(' os.iword(%s%s) = I(long,%d);\n' % (IO, MID[q], j) for j, q in enumerate(ks))
    arg = '(I(unsigned int,%d))' % len(ks) if n is None else ''
    m = MANIPS[k][n or 0]
    body += ' std::ostream& r = (os << %s%s%s);\n' % (IO, m, arg) + ''.join(' O(long,%d) = os.iword(%s%s);' % (j, IO, MID[q]) for j, q in enumerate(ks))
    body += ' O(unsigned char,%d) = os.good() && &r == &os; O(unsigned int,%d) = os.str().size(); O(long,%d) = %s;' % (len(ks), len(ks) + 1, len(ks) + 2, '0' if n is None else IO + MNAME[k][n])
    ins = [(q, 'i64') for q in ks] + ([('arg', 'u32')] if n is None else [])
    outs = [(q, 'i64') for q in ks] + [('good', 'u8'), ('size', 'u32'), ('value', 'i64')]
    def spec(reg, i, o):
        want = z3.ZeroExt(32, i[len(ks)]) if n is None else o[len(ks) + 2]
        return [('setting ' + q, o[j] == (want if q == k else i[j])) for j, q in enumerate(ks)] + [('stream', o[len(ks)] == 1), ('nothing written', o[len(ks) + 1] == 0), ('default', z3.BoolVal(True) if n is None else (o[len(ks) + 2] == 0) == z3.BoolVal(n == 0))]
    return mk('manip_' + m, body, ins, outs, spec, None, 'every value of all settings before the manipulator')
def read_dec(tmpl, skipws=True, bad=False):
    items = parse_template(tmpl)
    sym = [k for k, it in enumerate(items) if not isinstance(it, str)]
    body = 'char b[%d]; ' % (len(items) + 1) + ' '.join('b[%d] = %s;' % (k, 'I(char,%d)' % sym.index(k) if k in sym else str(ord(it))) for k, it in enumerate(items)) + ' std::string s(b, %d);\n' % len(items)
    nd = len(sym)
    body += ' std::istringstream is(s); %s %s D d = (D)I(unsigned char,%d); std::istream& r = (is >> d); bool f = is.fail(); O(unsigned char,0) = (unsigned char)d; O(unsigned char,1) = f; is.clear(); int n = is.peek(); O(int,2) = f ? 0 : n; O(unsigned char,3) = &r == &is;' % ('' if skipws else 'is.unsetf(std::ios_base::skipws);', 'is.setstate(std::ios_base::failbit);' if bad else '', nd)
    def bts(i): return [z3.BitVecVal(ord(it), 8) if isinstance(it, str) else i[sym.index(k)] for k, it in enumerate(items)]
    def pre(reg, i):
        return [SR.inset(i[n], frozenset().union(*[s for _, s in items[k]])) for n, k in enumerate(sym)] + [isdec(i[nd])]
    def spec(reg, i, o):
        b = bts(i); n = len(b)
        ws = lambda c: Or(*[c == w for w in WSC])
        dg = lambda c: And(z3.UGE(c, 48), z3.ULE(c, 57))
        low = lambda c: z3.If(And(z3.UGE(c, 65), z3.ULE(c, 90)), c | 32, c)
        acc = []      # (condition, decoration, position)
        for k in range(n + 1):
            if k and not skipws: break
            lead = And(*[ws(b[j]) for j in range(k)], *([Not(ws(b[k]))] if k < n and skipws else []))
            if k == n: break
            for m in range(1, n - k + 1):
                run = And(lead, *[dg(b[j]) for j in range(k, k + m)], *([Not(dg(b[k + m]))] if k + m < n else []))
                v = z3.BitVecVal(0, 100)
                for j in range(k, k + m): v = v * 10 + z3.ZeroExt(92, b[j] - 48)
                for d in DECS: acc.append((And(run, v == d), d, k + m))
            if k + 3 <= n:
                for d, t in DECS.items():
                    acc.append((And(lead, *[low(b[k + j]) == ord(t[j]) for j in range(3)]), d, k + 3))
        if bad: acc = []
        okc = Or(*[c for c, d, q in acc]) if acc else F_
        good = And(*[Implies(c, And(o[0] == d, o[1] == 0, o[2] == (z3.ZeroExt(24, b[q]) if q < n else z3.BitVecVal(0xffffffff, 32)))) for c, d, q in acc])
        return [('decoration read', good), ('rejected text', Implies(Not(okc), And(o[0] == i[nd], o[1] == 1))), ('stream', o[3] == 1)]
    def setup(e):
        for n, k in enumerate(sym): SR.setdom(e, e.runner.inv[n], frozenset().union(*[s for _, s in items[k]]))
    def vary(v, rnd):
        for n, k in enumerate(sym):
            if rnd.random() < 0.7: v[n] = rnd.choice(sorted(rnd.choice(items[k])[1]))
        return v
    nm = 'read_dec_' + ''.join(c if c.isalnum() else '_%x' % ord(c) for c in tmpl) + ('' if skipws else '_noskip') + ('_bad' if bad else '')
    return mk(nm, body, [('c%d' % k, 'u8') for k in sym] + [('old', 'u8')], [('dec', 'u8'), ('fail', 'u8'), ('next', 'i32'), ('same', 'u8')], spec, pre,
              'text of the shape %r: # any digit, ^ any white space, @ any byte, !x either case%s%s' % (tmpl, '' if skipws else ', white space not skipped', ', on a stream that has failed before' if bad else ''), setup=setup, vary=vary)
READ = ['', '@', '@@', '@@@', '^@@@', '^^@@@', '@@@@', '!i!l!l@', '!t!r!v@', '!d!e!f@', '!d!a!c@', '!c!o!m@', '#', '##', '###', '####', '#@', '##@', '^##^', '0000#', '-#', '+#', '4294967###', '1844674407370955####', '^', '^^']
def ios(tier):
    hs = []
    dfam = [None] + [q for q in FLAT if q[0] in ('text', 'decm', 'ovl', 'punct')]
    hs.append(seq_out('dec', dfam if tier == 'quick' else SEQ))
    hs.append(seq_out('ovl', dfam if tier == 'quick' else SEQ))
    for k in MANIPS:
        for n in range(len(MANIPS[k])): hs.append(manip(k, None if k in ('sw', 'w', 'p') else n))
    for t in READ + (['@@@@@', '^@@@@', '^^^@@@', '######'] if tier == 'thorough' else []): hs.append(read_dec(t))
    for t in ('@@@', '^@@@', '#@', '@##'): hs.append(read_dec(t, skipws=False))
    for t in ('@@@', '#', '^!c!o!m'): hs.append(read_dec(t, bad=True))
    return hs
