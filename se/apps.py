"""Correctly rounded functions as solver variables, and the facts about them.

R(fn, rnd, fmt, args) is the value of fn at args rounded to IEEE format fmt in direction rnd.  Facts used: D <= N <= U; the real function's
monotonicity per argument on its domain; its sign; its value at anchor points (evaluated with libmpfr); its NaN/infinity conventions."""
import z3
from . import fmt as F
from .fmt import FMT, ZRM

And, Or, Not, If, Implies = z3.And, z3.Or, z3.Not, z3.If, z3.Implies
isNaN, isInf, isZero, isNeg, isPos = z3.fpIsNaN, z3.fpIsInf, z3.fpIsZero, z3.fpIsNegative, z3.fpIsPositive
def lt(a, b): a, b = com(a, b); return z3.fpLT(a, b)
def le(a, b): a, b = com(a, b); return z3.fpLEQ(a, b)
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def eq(a, b): a, b = com(a, b); return z3.fpEQ(a, b)
def com(a, b):
    if a.sort() == b.sort(): return a, b
    S = z3.FPSort(max(a.sort().ebits(), b.sort().ebits()), max(a.sort().sbits(), b.sort().sbits()))
    return cv(a, S), cv(b, S)
CUR = [None]
def s64v(a): v = a.as_long(); n = a.size(); return v - (1 << n) if v >> (n - 1) else v
def cv(a, S):
    """exact conversion of a to the wider sort S"""
    if a.sort() == S: return a
    if z3.is_fp_value(a): return z3.simplify(z3.fpFPToFP(z3.RNE(), a, S))
    if CUR[0] is not None and S.ebits() >= a.sort().ebits() and S.sbits() >= a.sort().sbits(): return CUR[0].wid(a, S)
    return z3.simplify(z3.fpFPToFP(z3.RNE(), a, S))
def zero(s): return z3.fpPlusZero(s)
def num(v, s):
    return z3.simplify(z3.fpToFP(z3.RNE(), z3.RealVal(v), s)) if not isinstance(v, float) else z3.FPVal(v, s)
def minnormal(S): return z3.simplify(z3.fpFP(z3.BitVecVal(0, 1), z3.BitVecVal(1, S.ebits()), z3.BitVecVal(0, S.sbits() - 1)))
def finite(x): return Not(Or(isNaN(x), isInf(x)))
def absx(x): return z3.fpAbs(x)
def isconst(x): return isinstance(x, int) or z3.is_fp_value(x)

EXACT = {'id', 'add', 'sub', 'neg', 'abs', 'rint_ceil', 'rint_floor', 'rint_trunc', 'rint_round', 'rint_roundeven', 'rint'}

# unary functions: list of (lo, hi, direction) monotone pieces, domain closed unless stated; NaN outside
INF = float('inf')
UNARY = {
 'exp': [(-INF, INF, 1)], 'exp2': [(-INF, INF, 1)], 'exp10': [(-INF, INF, 1)], 'expm1': [(-INF, INF, 1)],
 'log': [(0.0, INF, 1)], 'log2': [(0.0, INF, 1)], 'log10': [(0.0, INF, 1)], 'log1p': [(-1.0, INF, 1)],
 'sqrt': [(0.0, INF, 1)], 'cbrt': [(-INF, INF, 1)], 'sqr': 'even', 'cosh': 'even',
 'asin': [(-1.0, 1.0, 1)], 'acos': [(-1.0, 1.0, -1)], 'atan': [(-INF, INF, 1)],
 'sinh': [(-INF, INF, 1)], 'tanh': [(-INF, INF, 1)], 'asinh': [(-INF, INF, 1)], 'acosh': [(1.0, INF, 1)], 'atanh': [(-1.0, 1.0, 1)],
}

def xavg(rm, x, y):
    """one rounding: below the normal range the wide sum is exact"""
    S = x.sort(); W = z3.FPSort(S.ebits() + 2, S.sbits()); h = z3.FPVal(0.5, W)
    w = lambda t: z3.fpMul(rm, z3.fpFPToFP(rm, t, W), h)
    return z3.fpFPToFP(rm, z3.fpAdd(rm, w(x), w(y)), S)

class Info:
    __slots__ = ('fn', 'f', 'args', 'res', 'wide', 'id', 'anch')
    def __init__(s, fn, f, args, id): s.fn = fn; s.f = f; s.args = args; s.res = {}; s.wide = {}; s.id = id; s.anch = []

class Reg:
    def __init__(self):
        self.apps = {}; self.n = 0; self.havocs = {}
        self.used = {}            # apps touched since last reset
        self.factcache = {}; self.paircache = {}
        self.extra = []           # extra facts (trig branch indices)
        self.keep = []
        self.opq = {}; self.opq_used = {}; self.defs_on = False; self.opq_called = 0
        self.wids = {}; self.wall = {}; self.wbase = {}; self.wfacts = {}
        self.twos = {}; self.twos_used = {}
        self.lattice = []         # values between which no rounding pair may straddle
        self.points = {}          # fn -> list of dynamic anchor arg tuples (python numerals as z3 terms)
    def reset_used(self): self.used = {}; self.opq_used = {}; self.opq_called = 0; self.twos_used = {}
    def reset_wids(self): self.wids = {}

    def argkey(self, args):
        return tuple(('i', a) if isinstance(a, int) else ('t', a.get_id()) for a in args)
    def info(self, fn, f, args):
        k = (fn, f.n, self.argkey(args))
        a = self.apps.get(k)
        if a is None:
            self.n += 1; a = Info(fn, f, tuple(args), self.n); self.apps[k] = a
        if k not in self.used:
            self.used[k] = a
            if fn in EXTRA: EXTRA[fn].touch(self, a)
        return a
    def R(self, fn, rnd, f, args):
        if isinstance(f, str): f = FMT[f]
        rm = ZRM.get(rnd)
        if CUR[0] is None: args = tuple(a if isinstance(a, int) else z3.simplify(a) for a in args); args = tuple(s64v(a) if z3.is_bv_value(a) else a for a in args)
        if fn == 'id':
            s = args[0].sort()
            if s == f.sort: return args[0]
            if isconst(args[0]) or (s.ebits() <= f.eb and s.sbits() <= f.p): return cv(args[0], f.sort) if not isconst(args[0]) else z3.simplify(z3.fpFPToFP(rm, args[0], f.sort))
            w = self.wbase.get(args[0].get_id())
            if w is not None and w[0].sort() == f.sort: return w[0]
        if fn in ('neg', 'abs') and args[0].sort() == f.sort:
            return self.simp(z3.fpNeg(args[0]) if fn == 'neg' else z3.fpAbs(args[0]))
        if fn == 'sub': fn = 'add'; args = (args[0], z3.simplify(z3.fpNeg(args[1])))
        if fn in EXACT and fn.startswith('rint') and args[0].sort() == f.sort:
            from .mpfr import rint_term
            return self.simp(rint_term(fn, rnd, args[0]))
        args = [a if isinstance(a, int) or not z3.is_fp(a) else a for a in args]
        if all(isconst(a) for a in args):
            from .mpfr import F_num
            v = F.eval_ieee(fn, [a if isinstance(a, int) else F_num(a) for a in args], rnd, f.n)
            return F.bits_to_z3(F.to_bits(v, f.n), f.n)
        if rnd == 'Z':
            d = self.R(fn, 'D', f, args); return If(z3.fpGEQ(d, zero(f.sort)), d, self.R(fn, 'U', f, args))
        if rnd == 'A':
            d = self.R(fn, 'D', f, args); return If(z3.fpGEQ(d, zero(f.sort)), self.R(fn, 'U', f, args), d)
        a = self.info(fn, f, args)
        if rnd not in a.res:
            a.res[rnd] = z3.FP('%s_%s%s!%d' % (fn, rnd, f.n, a.id), f.sort)
            self.factcache.pop(a.id, None)
            for k in [k for k in self.paircache if a.id in k]: del self.paircache[k]
        return a.res[rnd]
    # -------------------------------------------------------------- opaque (already verified) operations
    def opaque(self, name, args, outs, define, facts):
        """variables for the results of `name` at args; congruent; define() -> defining terms, facts(vars) -> valid consequences"""
        key = (name,) + tuple(a.get_id() for a in args)
        o = self.opq.get(key)
        if o is None:
            n = len(self.opq)
            vs = [z3.FP('%s.%d!%d' % (name, j, n), k) if isinstance(k, z3.FPSortRef) else z3.BitVec('%s.%d!%d' % (name, j, n), k) for j, k in enumerate(outs)]
            o = (name, args, vs, define, facts(vs)); self.opq[key] = o
        self.opq_used[key] = o
        return o[2]
    def same(self, a, b):
        if z3.is_fp(a):
            if a.eq(b): return z3.BoolVal(True)
            return Or(And(isNaN(a), isNaN(b)), z3.fpEQ(a, b))
        return a == b
    def two_sum(self, f, a, b):
        """(nearest sum, exact error) of a+b; e is NaN when the sum overflows"""
        s_ = self.R('add', 'N', f, (a, b))
        key = ('two_sum', f.n, a.get_id(), b.get_id())
        o = self.twos.get(key)
        if o is None:
            e_ = z3.FP('two_err!%d' % len(self.twos), f.sort); o = (f, a, b, s_, e_); self.twos[key] = o
        self.twos_used[key] = o
        return o[3], o[4]
    def twofacts(self):
        out = []
        l = list(self.twos_used.values())
        for i, (f, a, b, s_, e_) in enumerate(l):
            out.append(isNaN(e_) == Not(finite(s_)))
            for g, c, d, t_, h_ in l[i + 1:]:
                if g is not f: continue
                k = self.sgn4(f, a, b, c, d); z = zero(f.sort)
                ok = And(*[finite(v) for v in (a, b, c, d)])
                for op in (z3.fpLT, z3.fpGT):
                    out.append(Implies(ok, Or(op(s_, t_), And(z3.fpEQ(s_, t_), finite(s_), op(e_, h_))) == And(op(k, z), Not(And(z3.fpEQ(s_, t_), isInf(s_))))))
        return out
    def opqfacts(self):
        out = self.twofacts()
        n = -1
        while n != len(self.opq_used):
            n = len(self.opq_used); out = self.twofacts()
            l = list(self.opq_used.values())
            for i, o in enumerate(l):
                out += o[4]
                if self.defs_on:
                    d = o[3]()
                    if d is not None: out += [self.same(v, w) for v, w in zip(o[2], d)]
                for q in l[i + 1:]:
                    if q[0] == o[0] and len(q[1]) == len(o[1]):
                        out.append(Implies(And(*[self.same(a, b) for a, b in zip(o[1], q[1])]), And(*[self.same(a, b) for a, b in zip(o[2], q[2])])))
        return out
    def wid(self, a, S):
        k = a.decl().kind() if z3.is_app(a) else None
        if k == z3.Z3_OP_FPA_NEG: return z3.fpNeg(self.wid2(a.arg(0), S))
        if k == z3.Z3_OP_FPA_ABS: return z3.fpAbs(self.wid2(a.arg(0), S))
        if k == z3.Z3_OP_ITE: return z3.If(a.arg(0), self.wid2(a.arg(1), S), self.wid2(a.arg(2), S))
        b = self.wbase.get(a.get_id())
        if b is not None: return self.wid2(b[0], S)
        key = (a.get_id(), S.ebits(), S.sbits())
        w = self.wids.get(key)
        if w is None:
            w = self.wall.get(key)
            if w is None:
                v = z3.FP('wid%d_%d!%d' % (S.ebits(), S.sbits(), len(self.wall)), S)
                w = (a, v); self.wall[key] = w; self.wbase[v.get_id()] = w
            self.wids[key] = w
        return w[1]
    def wid2(self, a, S):
        if z3.is_fp_value(a): return z3.simplify(z3.fpFPToFP(z3.RNE(), a, S))
        return self.wid(a, S)
    def widfacts(self):
        """widening conversions are order embeddings that keep NaN, infinities, zeros and signs"""
        out = []
        ws = list(self.wids.values())
        for i, (a, v) in enumerate(ws):
            k = v.get_id()
            fs = self.wfacts.get(k)
            if fs is None:
                S = v.sort(); s = a.sort()
                fs = [isNaN(v) == isNaN(a), isInf(v) == isInf(a), isZero(v) == isZero(a), Implies(Not(isNaN(a)), isNeg(v) == isNeg(a))]
                for c in self.anchors(None, None, a):
                    if c.isInf() or c.isZero(): continue
                    C = z3.simplify(z3.fpFPToFP(z3.RNE(), c, S))
                    fs += [z3.fpLEQ(a, c) == z3.fpLEQ(v, C), z3.fpGEQ(a, c) == z3.fpGEQ(v, C)]
                self.wfacts[k] = fs
            out += fs
            for b, u in ws[i + 1:]:
                if u.sort() != v.sort(): continue
                kk = (k, u.get_id())
                fs = self.wfacts.get(kk)
                if fs is None:
                    fs = [le(a, b) == z3.fpLEQ(v, u), le(b, a) == z3.fpLEQ(u, v)]; self.wfacts[kk] = fs
                out += fs
        return out
    def enginefacts(self):
        n = -1; out = []
        while n != len(self.wids): n = len(self.wids); out = self.widfacts()
        for o in self.opq_used.values(): out = out + o[4]
        for a in self.used.values():
            if a.fn == 'id':
                fc = self.factcache.get(a.id)
                if fc is None: fc = self.single(a); self.factcache[a.id] = fc
                out += fc
        return out
    def simp(self, t):
        return z3.simplify(t) if all(z3.is_fp_value(c) or not z3.is_fp(c) for c in t.children()) else t
    def havoc(self, key, lo, hi, f, args):
        v = z3.FP('havoc!' + repr(abs(hash(key)) if False else key), f.sort)
        self.havocs[v.get_id()] = (v, lo, hi)
        return v
    def widevar(self, fn, rnd, f, args, W):
        a = self.info(fn, f, args)
        if rnd not in a.wide:
            self.R(fn, rnd, f, args) if rnd in 'DUN' else None
            a.wide[rnd] = z3.FP('%s_w%s%s!%d' % (fn, rnd, f.n, a.id), W)
            self.factcache.pop(a.id, None)
        return a.wide[rnd]
    def sign(self, app, f): return None
    XFN = {'add': z3.fpAdd, 'mul': z3.fpMul, 'div': z3.fpDiv, 'sqrt': z3.fpSqrt, 'fma': z3.fpFMA, 'sqr': lambda rm, x: z3.fpMul(rm, x, x),
           'avg': lambda rm, x, y: xavg(rm, x, y)}
    def exact(self):
        """exact IEEE semantics for the arithmetic applications in use"""
        out = [v == z3.fpFPToFP(z3.RNE(), a, v.sort()) for a, v in self.wids.values()]
        for a in self.used.values():
            g = self.XFN.get(a.fn)
            if a.fn == 'id':
                for r, t in a.res.items(): out.append(t == z3.fpFPToFP(ZRM[r], a.args[0], a.f.sort))
                continue
            if g is None or any(isinstance(x, int) or x.sort() != a.f.sort for x in a.args): continue
            for r, t in a.res.items(): out.append(t == g(ZRM[r], *a.args))
        return out
    def all_exact(self):
        return all(not a.wide and (a.fn == 'id' or a.fn in self.XFN and all(not isinstance(x, int) and x.sort() == a.f.sort for x in a.args)) for a in self.used.values())

    # -------------------------------------------------------------- facts
    def facts(self):
        oq = self.opqfacts()
        return self.facts0() + oq
    def facts0(self):
        out = self.facts1(); w = []
        n = m = -1
        while n != len(self.wids) or m != len(self.used):
            n = len(self.wids); m = len(self.used); out = self.facts1(); w = self.widfacts()
        if self.lattice: w = w + self.latticefacts()
        # values of the format against results held in the working precision
        for a in list(self.used.values()):
            for r, t in a.wide.items():
                if r not in 'DU' or r not in a.res: continue
                for y, v in list(self.wids.values()):
                    if y.sort() != a.f.sort or v.sort() != t.sort(): continue
                    w.append(z3.fpGEQ(v, t) == z3.fpGEQ(y, a.res[r]) if r == 'U' else z3.fpLEQ(v, t) == z3.fpLEQ(y, a.res[r]))
        # narrowing roundings against representable values
        for a in list(self.used.values()):
            if a.fn != 'id': continue
            x = a.args[0]
            for y, v in list(self.wids.values()):
                if y.sort() != a.f.sort or v.sort() != x.sort(): continue
                for t in a.res.values():
                    if t.eq(y): continue
                    w += [Implies(z3.fpLEQ(v, x), z3.fpLEQ(y, t)), Implies(z3.fpGEQ(v, x), z3.fpGEQ(y, t))]
        return out + w
    def latticefacts(self):
        out = []
        for a in self.used.values():
            if 'D' not in a.res or 'U' not in a.res: continue
            S = a.f.sort; d, u = a.res['D'], a.res['U']
            for y in [t for t in self.lattice if t.sort() == S] + [v for _, v in self.wids.values() if v.sort() == S]:
                n = z3.fpNeg(y)
                out += [Or(z3.fpLEQ(y, d), z3.fpGEQ(y, u), isNaN(y), isNaN(d)), Or(z3.fpLEQ(n, d), z3.fpGEQ(n, u), isNaN(y), isNaN(d))]
        return out
    def facts1(self, apps=None):
        apps = list((self.used if apps is None else apps).values())
        out = []
        for a in apps:
            fc = self.factcache.get(a.id)
            if fc is None: fc = self.single(a); self.factcache[a.id] = fc
            out += fc
        for i, a in enumerate(apps):
            for b in apps[i + 1:]:
                if a.fn != b.fn or a.f is not b.f: continue
                k = (a.id, b.id)
                pc = self.paircache.get(k)
                if pc is None:
                    pc = self.rel(a, b) + self.rel(b, a); self.paircache[k] = pc
                out += pc
        out += self.links(apps)
        for v, lo, hi in self.havocs.values():
            out.append(Or(And(isNaN(v), isNaN(lo)), z3.fpEQ(v, lo), z3.fpEQ(v, hi), And(z3.fpLEQ(lo, v), z3.fpLEQ(v, hi))))
        return out + self.extra

    def links(self, apps):
        """1/root(c,k), pown(y,-k) and the inverse root of c"""
        of = {t.get_id(): (a, r) for a in apps if a.fn in ('root', 'sqrt') for r, t in a.res.items()}
        bv = lambda k: z3.BitVecVal(k, 64) if isinstance(k, int) else k
        invs = {}; out = []
        for d in [d for d in apps if d.fn == 'div' and not isinstance(d.args[1], int) and d.args[1].get_id() in of and isconst(d.args[0])]:
            if not z3.simplify(z3.fpEQ(d.args[0], num(1.0, d.args[0].sort()))).eq(z3.BoolVal(True)): continue
            rt, r = of[d.args[1].get_id()]
            if rt.fn != 'root' or rt.f is not d.f or r not in 'DU': continue
            S = d.f.sort; c, k = rt.args; n = 2; chain = [rt]
            if c.get_id() in of and of[c.get_id()][0].fn == 'sqrt' and isinstance(k, int):
                # root of a square root, both rounded to the same side: the first error shrinks with the root
                if of[c.get_id()][1] != r or k < 1 << 20: continue
                chain.append(of[c.get_id()][0]); c = chain[1].args[0]; k = 2 * k; n = 3
            if c.sort() != S: continue
            key = 'invroot', d.f.n, self.argkey((c, k))
            for q in 'DU': self.R('invroot', q, d.f, (c, k))
            inv = self.apps[key]; K = bv(k)
            dom = And(K >= 2, finite(c), Not(isZero(c)), Or(z3.Extract(0, 0, K) == 1, Not(isNeg(c))))
            out += self.order(d, inv, dom) if r == 'U' else self.order(inv, d, dom)
            ex = And(dom, *[z3.fpEQ(self.R(a.fn, 'D', a.f, a.args), self.R(a.fn, 'U', a.f, a.args)) for a in chain])
            out += self.order(inv, d, ex) if r == 'U' else self.order(d, inv, ex)
            # an exact inverse root of a dyadic number is a power of two: so are the root and its reciprocal
            for a in chain + [d]: out.append(Implies(And(dom, z3.fpEQ(inv.res['D'], inv.res['U'])), z3.fpEQ(self.R(a.fn, 'D', a.f, a.args), self.R(a.fn, 'U', a.f, a.args))))
            for q, t in d.res.items():
                out.append(Implies(dom, And(finite(t), ge(absx(t), minnormal(S)))))
                if (r, q) in (('U', 'D'), ('D', 'U')):
                    b = z3.fpToIEEEBV(t); i = inv.res[q]; st = z3.BitVecVal(n, b.size())
                    # the rounded reciprocal of the rounded root is at most n steps away
                    up = lambda v: z3.fpBVToFP(v, S)
                    out.append(Implies(dom, z3.fpLEQ(i, up(If(isNeg(t), b - st, b + st))) if q == 'D' else z3.fpGEQ(i, up(If(isNeg(t), b + st, b - st)))))
        for a in [a for a in self.used.values() if a.fn == 'invroot']:
            c, k = a.args; K = bv(k); S = a.f.sort
            if c.sort() != S: continue
            for p in apps:
                if p.fn != 'pown' or p.f is not a.f or p.args[0].sort() != S: continue
                y, m = p.args; z = zero(S)
                cond = And(bv(m) == -K, K >= 2, finite(y), finite(c), Or(And(gt(y, z), gt(c, z)), And(lt(y, z), lt(c, z), z3.Extract(0, 0, K) == 1)))
                if 'D' in a.res and 'U' in a.res: out.append(Implies(cond, Or(z3.fpLEQ(y, a.res['D']), z3.fpGEQ(y, a.res['U']))))
                for q in 'DU':
                    if q in p.res and q in a.res: out.append(Implies(cond, z3.fpGEQ(p.res[q], c) == z3.fpLEQ(y, a.res[q]) if q == 'D' else z3.fpGT(p.res[q], c) == z3.fpLT(y, a.res[q])))
        return out
    def order(self, lo, hi, c):
        """c -> every rounding of lo <= every weaker rounding of hi.  lo/hi: Info or dict of constants"""
        L = lo.res if isinstance(lo, Info) else lo; H = hi.res if isinstance(hi, Info) else hi
        cs = []
        for r in 'DNU':
            if r in L and r in H: cs.append(z3.fpLEQ(L[r], H[r]))
        for r, q in (('D', 'N'), ('N', 'U'), ('D', 'U')):
            if r in L and q in H and r not in H and q not in L or (r in L and q in H and (r not in H or q not in L)): cs.append(z3.fpLEQ(L[r], H[q]))
        if not cs: return []
        return [Implies(c, And(*cs))]

    def const_res(self, fn, f, args, rs):
        return {r: self.R(fn, r, f, args) for r in rs}

    def single(self, a):
        f = a.f; out = []; R = a.res; S = f.sort
        ns = list(R.values())
        for w, t in a.wide.items():
            # the working range of the multiple precision value is that of the format, at full precision everywhere
            W = t.sort(); mx_ = z3.simplify(z3.fpFPToFP(z3.RNE(), F.bits_to_z3(F.to_bits(('num', 0, (1 << f.p) - 1, f.emax - f.p), f.n), f.n), W))
            mn_ = z3.simplify(z3.fpFPToFP(z3.RNE(), F.bits_to_z3(F.to_bits(('num', 0, 1, f.emin - 1), f.n), f.n), W))
            out += [Or(isNaN(t), isInf(t), z3.fpLEQ(absx(t), mx_)), Or(isNaN(t), isZero(t), z3.fpGEQ(absx(t), mn_))]
            if w in R and a.fn != 'pown': out.append(Or(And(isNaN(t), isNaN(R[w])), z3.fpEQ(z3.fpFPToFP(ZRM[w], t, S), R[w])))
        if 'D' in a.wide and 'U' in a.wide:
            wd, wu = a.wide['D'], a.wide['U']
            out.append(isNaN(wd) == isNaN(wu)); out.append(Implies(Not(isNaN(wd)), z3.fpLEQ(wd, wu)))
            if 'D' in R and 'U' in R: out.append(Implies(z3.fpEQ(R['D'], R['U']), z3.fpEQ(wd, wu)))
        if len(ns) > 1:
            for x in ns[1:]: out.append(isNaN(x) == isNaN(ns[0]))
            nn = Not(isNaN(ns[0]))
            o = [R[r] for r in 'DNU' if r in R]
            for x, y in zip(o, o[1:]): out.append(Implies(nn, z3.fpLEQ(x, y)))
            if 'D' in R and 'N' in R and 'U' in R: out.append(Implies(nn, Or(z3.fpEQ(R['N'], R['D']), z3.fpEQ(R['N'], R['U']))))
        if not ns: return out
        r0 = ns[0]
        fn = a.fn
        if fn in UNARY:
            x = a.args[0]; pieces = UNARY[fn]
            if pieces == 'even': dom = Not(isNaN(x))
            else:
                lo, hi, d = pieces[0]
                xs = x.sort()
                dom = And(le(num(lo, xs), x), le(x, num(hi, xs)))
            out.append(isNaN(r0) == Not(dom))
            if fn == 'sqrt': out.append(Implies(isZero(x), self.allres(a, lambda t: And(isZero(t), isNeg(t) == isNeg(x)))))
            # anchors
            for p in self.anchors(fn, f, x) + [q[0] for q in self.points.get((fn, f.n), [])]:
                cr = self.const_res(fn, f, [p], R.keys())
                if any(v.isNaN() for v in cr.values()): continue
                if pieces == 'even':
                    pa = z3.simplify(absx(p))
                    out += self.order(cr, a, ge(absx(x), pa)); out += self.order(a, cr, le(absx(x), pa))
                elif pieces[0][2] > 0:
                    out += self.order(cr, a, And(dom, ge(x, p))); out += self.order(a, cr, And(dom, le(x, p)))
                else:
                    out += self.order(a, cr, And(dom, ge(x, p))); out += self.order(cr, a, And(dom, le(x, p)))
        elif fn == 'mul': out += self.mulfacts(a)
        elif fn == 'add': out += self.addfacts(a)
        elif fn == 'sgn4': out += self.sgn4facts(a)
        elif fn == 'avg': out += self.avgfacts(a)
        elif fn == 'id': out += self.idfacts(a)
        elif fn == 'div': out += self.divfacts(a)
        elif fn in ('fma',): out += self.fmafacts(a)
        elif fn == 'pow': out += self.powfacts(a)
        elif fn == 'pown': out += self.pownfacts(a)
        elif fn in EXTRA: out += EXTRA[fn].single(self, a)
        for pt in self.points.get((fn, f.n), []):
            c = And(*[(p == x if isinstance(x, int) else (x == p if not z3.is_fp(x) else x == cv(p, x.sort()))) if not (isinstance(x, int) and isinstance(p, int)) else z3.BoolVal(x == p) for x, p in zip(a.args, pt)])
            cr = self.const_res(fn, f, pt, R.keys())
            out.append(Implies(c, And(*[(isNaN(R[k]) if v.isNaN() else z3.fpEQ(R[k], v)) for k, v in cr.items()])))
        return out

    def anchors(self, fn, f, x):
        s = x.sort()
        out = [num(v, s) for v in (-INF, -1.0, 0.0, 1.0, INF)]
        mn = z3.simplify(z3.fpFP(z3.BitVecVal(0, 1), z3.BitVecVal(0, s.ebits()), z3.BitVecVal(1, s.sbits() - 1)))
        mx = z3.simplify(z3.fpFP(z3.BitVecVal(0, 1), z3.BitVecVal((1 << s.ebits()) - 2, s.ebits()), z3.BitVecVal(-1, s.sbits() - 1)))
        out += [mn, mx, z3.simplify(z3.fpNeg(mn)), z3.simplify(z3.fpNeg(mx))]
        return out

    def realfin(self, a, c, positive=None):
        """under condition c the real value is finite (and of the given strict sign)"""
        R = a.res; S = a.f.sort; out = []; z = zero(S)
        for r, t in R.items():
            cs = []
            if r == 'D': cs.append(Not(And(isInf(t), isPos(t))))
            if r == 'U': cs.append(Not(And(isInf(t), isNeg(t))))
            if positive is True: cs.append(z3.fpGEQ(t, z) if r != 'U' else z3.fpGT(t, z))
            if positive is False: cs.append(z3.fpLEQ(t, z) if r != 'D' else z3.fpLT(t, z))
            if cs: out.append(Implies(c, And(*cs)))
        return out
    def allres(self, a, p): return And(*[p(t) for t in a.res.values()])

    def addfacts(self, a):
        x, y = a.args; S = a.f.sort; out = []; z = zero(S)
        nan = Or(isNaN(x), isNaN(y), And(isInf(x), isInf(y), isNeg(x) != isNeg(y)))
        out.append(isNaN(next(iter(a.res.values()))) == nan)
        ok = Not(nan)
        for u in (x, y): out.append(Implies(And(ok, isInf(u)), self.allres(a, lambda t: And(isInf(t), isNeg(t) == isNeg(u)))))
        fin = And(ok, Not(isInf(x)), Not(isInf(y))); ny = z3.fpNeg(y)
        out.append(Implies(And(fin, eq(x, ny)), self.allres(a, isZero)))
        out.append(Implies(And(fin, gt(x, ny)), self.allres(a, lambda t: z3.fpGT(t, z))))
        out.append(Implies(And(fin, lt(x, ny)), self.allres(a, lambda t: z3.fpLT(t, z))))
        out += self.realfin(a, fin)
        for u, v in ((x, y), (y, x)):
            if u.sort() == S:
                zv = zero(v.sort())
                out.append(Implies(And(ok, ge(v, zv)), self.allres(a, lambda t: z3.fpGEQ(t, u))))
                out.append(Implies(And(ok, le(v, zv)), self.allres(a, lambda t: z3.fpLEQ(t, u))))
        return out
    def sgn4(self, f, p, q, r, s_):
        """sign (-1, 0, 1) of the exact sum p+q-(r+s), all finite"""
        ng = lambda t: t.arg(0) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_FPA_NEG else z3.simplify(z3.fpNeg(t))
        ts = [p, q, ng(r), ng(s_)]
        if all(z3.is_fp_value(t) for t in ts): return self.R('sgn4', 'N', f, tuple(ts))
        # canonical order and overall sign
        def key(t):
            n = ng(t); return (min(t.get_id(), n.get_id()))
        self.keep += ts; ts = [t for t in ts]
        ts.sort(key=key)
        flip = z3.is_app(ts[0]) and ts[0].decl().kind() == z3.Z3_OP_FPA_NEG
        if flip: ts = [ng(t) for t in ts]
        r = self.R('sgn4', 'N', f, tuple(ts))
        return z3.fpNeg(r) if flip else r
    def sgn4facts(self, a):
        ts = a.args; r = a.res['N']; S = a.f.sort; z = zero(S); one = num(1.0, S); ok = And(*[finite(t) for t in ts]); out = []
        out.append(Implies(ok, Or(z3.fpEQ(r, z), z3.fpEQ(r, one), z3.fpEQ(r, z3.fpNeg(one)))))
        for (i, j), (k, l) in (((0, 1), (2, 3)), ((0, 2), (1, 3)), ((0, 3), (1, 2))):
            c1 = lambda op: op(ts[i], z3.fpNeg(ts[j])); c2 = lambda op: op(ts[k], z3.fpNeg(ts[l]))
            for g, s_ in ((ge, gt), (le, lt)):
                o = z3.fpGEQ if g is ge else z3.fpLEQ; os = z3.fpGT if g is ge else z3.fpLT
                out.append(Implies(And(ok, c1(g), c2(g)), o(r, z)))
                out.append(Implies(And(ok, Or(And(c1(s_), c2(g)), And(c1(g), c2(s_)))), os(r, z)))
        return out
    def avgfacts(self, a):
        x, y = a.args; S = a.f.sort; out = []; z = zero(S)
        nan = Or(isNaN(x), isNaN(y), And(isInf(x), isInf(y), isNeg(x) != isNeg(y)))
        out.append(isNaN(next(iter(a.res.values()))) == nan)
        ok = Not(nan)
        for u in (x, y): out.append(Implies(And(ok, isInf(u)), self.allres(a, lambda t: And(isInf(t), isNeg(t) == isNeg(u)))))
        fin = And(ok, Not(isInf(x)), Not(isInf(y))); ny = z3.fpNeg(y)
        out.append(Implies(And(fin, eq(x, ny)), self.allres(a, isZero)))
        out.append(Implies(And(fin, gt(x, ny)), self.allres(a, lambda t: z3.fpGEQ(t, z))))
        out.append(Implies(And(fin, lt(x, ny)), self.allres(a, lambda t: z3.fpLEQ(t, z))))
        for u, v in ((x, y), (y, x)):
            for r, t in a.res.items():
                ur = self.R('id', r, a.f, (u,))
                out.append(Implies(And(ok, le(u, v)), z3.fpLEQ(ur, t))); out.append(Implies(And(ok, ge(u, v)), z3.fpGEQ(ur, t)))
        return out
    def idfacts(self, a):
        x, = a.args; S = a.f.sort; out = []; z = zero(x.sort()); zs = zero(S)
        n = isNaN(x)
        for r, t in a.res.items():
            out.append(isNaN(t) == n)
            out.append(Implies(isInf(x), And(isInf(t), isNeg(t) == isNeg(x))))
            out.append(Implies(isZero(x), isZero(t))); out.append(Implies(Not(n), isNeg(t) == isNeg(x)))
            if r in 'DU': out.append(Implies(Not(n), le(t, x) if r == 'D' else ge(t, x)))
            out.append(Implies(gt(x, z), z3.fpGEQ(t, zs) if r != 'U' else z3.fpGT(t, zs)))
            out.append(Implies(lt(x, z), z3.fpLEQ(t, zs) if r != 'D' else z3.fpLT(t, zs)))
            if r == 'D': out.append(Implies(Not(isInf(x)), Not(And(isInf(t), isPos(t)))))
            if r == 'U': out.append(Implies(Not(isInf(x)), Not(And(isInf(t), isNeg(t)))))
        # exact when representable
        for r, t in a.res.items():
            for q, u in a.res.items():
                if r < q: out.append(Implies(And(Not(n), eq(t, x)), z3.fpEQ(t, u))); out.append(Implies(And(Not(n), eq(u, x)), z3.fpEQ(t, u)))
        return out
    def mulfacts(self, a):
        x, y = a.args; S = a.f.sort; out = []
        nan = Or(isNaN(x), isNaN(y), And(isZero(x), isInf(y)), And(isInf(x), isZero(y)))
        out.append(isNaN(next(iter(a.res.values()))) == nan)
        ok = Not(nan); s = z3.Xor(isNeg(x), isNeg(y))
        z = Or(isZero(x), isZero(y)); inf = Or(isInf(x), isInf(y))
        out.append(Implies(And(ok, z), self.allres(a, isZero)))
        out.append(Implies(And(ok, inf), self.allres(a, lambda t: And(isInf(t), isNeg(t) == s))))
        reg = And(ok, Not(z), Not(inf))
        out += self.realfin(a, And(reg, Not(s)), True) + self.realfin(a, And(reg, s), False)
        for u, v in ((x, y), (y, x)):
            if u.sort() == S:
                one = num(1.0, v.sort())
                out.append(Implies(And(ok, eq(v, one)), self.allres(a, lambda t: z3.fpEQ(t, u))))
                out.append(Implies(And(ok, eq(v, z3.simplify(z3.fpNeg(one)))), self.allres(a, lambda t: z3.fpEQ(t, z3.fpNeg(u)))))
        return out
    def prodle(self, a, b, c, d):
        """sufficient condition for a*b <= c*d (no NaN products)"""
        s1 = z3.Xor(isNeg(a), isNeg(b)); s2 = z3.Xor(isNeg(c), isNeg(d))
        z1 = Or(isZero(a), isZero(b)); z2 = Or(isZero(c), isZero(d))
        le0 = Or(s1, z1); ge0 = Or(Not(s2), z2)
        A, B, C, D = absx(a), absx(b), absx(c), absx(d)
        up = Or(And(le(A, C), le(B, D)), And(le(A, D), le(B, C)))
        dn = Or(And(ge(A, C), ge(B, D)), And(ge(A, D), ge(B, C)))
        ok = Not(Or(*[isNaN(v) for v in (a, b, c, d)] + [And(z1, Or(isInf(a), isInf(b))), And(z2, Or(isInf(c), isInf(d)))]))
        return And(ok, Or(And(le0, ge0), And(Not(s1), Not(s2), up), And(s1, s2, dn)))
    def quole(self, a, b, c, d):
        """sufficient condition for a/b <= c/d"""
        s1 = z3.Xor(isNeg(a), isNeg(b)); s2 = z3.Xor(isNeg(c), isNeg(d))
        z1 = Or(isZero(a), isInf(b)); z2 = Or(isZero(c), isInf(d))
        A, B, C, D = absx(a), absx(b), absx(c), absx(d)
        ok = Not(Or(*[isNaN(v) for v in (a, b, c, d)] + [And(isZero(a), isZero(b)), And(isInf(a), isInf(b)), And(isZero(c), isZero(d)), And(isInf(c), isInf(d))]))
        return And(ok, Or(And(Or(s1, z1), Or(Not(s2), z2)), And(Not(s1), Not(s2), le(A, C), ge(B, D)), And(s1, s2, ge(A, C), le(B, D))))
    def divfacts(self, a):
        x, y = a.args; S = a.f.sort; out = []
        nan = Or(isNaN(x), isNaN(y), And(isZero(x), isZero(y)), And(isInf(x), isInf(y)))
        out.append(isNaN(next(iter(a.res.values()))) == nan)
        ok = Not(nan); s = z3.Xor(isNeg(x), isNeg(y))
        z = Or(isZero(x), isInf(y)); inf = Or(isInf(x), isZero(y))
        out.append(Implies(And(ok, z), self.allres(a, isZero)))
        out.append(Implies(And(ok, inf), self.allres(a, lambda t: And(isInf(t), isNeg(t) == s))))
        reg = And(ok, Not(z), Not(inf))
        out += self.realfin(a, And(reg, Not(s)), True) + self.realfin(a, And(reg, s), False)
        if z3.is_fp_value(x):
            # monotone in the divisor: values at a few divisors
            T = y.sort(); g = [k for k in FMT.values() if k.sort == T]
            ps = [1.0, 2.0, 0.5]
            ps = [num(p, T) for p in ps]
            if g: ps += [F.bits_to_z3(F.to_bits(('num', 0, 1, k), g[0].n), g[0].n) for k in (g[0].emin - 1, g[0].emin + g[0].p - 2, -g[0].emax // 2, g[0].emax // 2, g[0].emax - 1)] + [F.bits_to_z3(F.to_bits(('num', 0, (1 << g[0].p) - 1, g[0].emax - g[0].p), g[0].n), g[0].n)]
            for p in ps:
                for q in (p, z3.simplify(z3.fpNeg(p))):
                    cr = self.const_res('div', a.f, [x, q], a.res.keys())
                    out += self.order(cr, a, And(ok, self.quole(x, q, x, y))) + self.order(a, cr, And(ok, self.quole(x, y, x, q)))
        if z3.is_fp_value(x) and x.eq(num(1.0, x.sort())) and y.sort() == S and {'D', 'U'} <= set(a.wide) and {'D', 'U'} <= set(a.res):
            # 1/y is exact only for a power of two, whose reciprocal is representable
            out.append(Implies(And(ok, finite(y), z3.fpEQ(a.wide['D'], a.wide['U'])), z3.fpEQ(a.res['D'], a.res['U'])))
        if x.sort() == S:
            one = num(1.0, y.sort())
            out.append(Implies(And(ok, eq(y, one)), self.allres(a, lambda t: z3.fpEQ(t, x))))
            out.append(Implies(And(ok, eq(y, z3.simplify(z3.fpNeg(one)))), self.allres(a, lambda t: z3.fpEQ(t, z3.fpNeg(x)))))
        return out
    def fmafacts(self, a):
        x, y, c = a.args; S = a.f.sort; out = []
        s = z3.Xor(isNeg(x), isNeg(y)); pinf = Or(isInf(x), isInf(y)); pz = Or(isZero(x), isZero(y))
        nan = Or(isNaN(x), isNaN(y), isNaN(c), And(isZero(x), isInf(y)), And(isInf(x), isZero(y)), And(pinf, isInf(c), s != isNeg(c)))
        out.append(isNaN(next(iter(a.res.values()))) == nan)
        ok = Not(nan)
        out.append(Implies(And(ok, pinf), self.allres(a, lambda t: And(isInf(t), isNeg(t) == s))))
        out.append(Implies(And(ok, isInf(c)), self.allres(a, lambda t: And(isInf(t), isNeg(t) == isNeg(c)))))
        fin = And(ok, Not(pinf), Not(isInf(c)))
        if c.sort() == S: out.append(Implies(And(fin, pz), self.allres(a, lambda t: z3.fpEQ(t, c))))
        out += self.realfin(a, fin)
        pos = And(Or(pz, Not(s)), Or(isZero(c), isPos(c))); neg = And(Or(pz, s), Or(isZero(c), isNeg(c)))
        zz = And(pz, isZero(c))
        out += self.realfin(a, And(fin, pos, Not(zz)), True) + self.realfin(a, And(fin, neg, Not(zz)), False)
        return out
    def oddint(self, y):
        h = z3.fpMul(z3.RTZ(), y, num(0.5, y.sort()))
        ip = z3.fpRoundToIntegral(z3.RTZ(), y)
        return And(finite(y), z3.fpEQ(ip, y), Not(z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), h), h)))
    def powfacts(self, a):
        x, y = a.args; S = a.f.sort; out = []
        one = num(1.0, x.sort()); zy = zero(y.sort()); zx = zero(x.sort())
        ok = And(Not(isNaN(x)), Not(isNaN(y)), Or(Not(isNeg(x)), isZero(x)))
        r1 = num(1.0, S); z = zero(S)
        oneres = And(ok, Or(eq(x, one), isZero(y)))
        out.append(Implies(ok, self.allres(a, lambda t: Not(isNaN(t)))))
        out.append(Implies(oneres, self.allres(a, lambda t: z3.fpEQ(t, r1))))
        n1 = And(ok, Not(oneres))
        big = gt(x, one); yp = gt(y, zy)
        infr = Or(And(isZero(x), Not(yp)), And(isInf(x), yp), And(isInf(y), big == yp))
        zr = Or(And(isZero(x), yp), And(isInf(x), Not(yp)), And(isInf(y), big != yp))
        negz = And(isZero(x), isNeg(x), Not(yp), self.oddint(y))
        out.append(Implies(And(n1, infr), self.allres(a, lambda t: And(isInf(t), isNeg(t) == negz))))
        out.append(Implies(And(n1, zr), self.allres(a, isZero)))
        reg = And(n1, Not(infr), Not(zr))
        out += self.realfin(a, reg, True)
        # above / below one
        out.append(Implies(And(reg, big == yp), self.allres(a, lambda t: z3.fpGEQ(t, r1))))
        out.append(Implies(And(reg, big != yp), self.allres(a, lambda t: z3.fpLEQ(t, r1))))
        if x.sort() == S: out.append(Implies(And(ok, eq(y, num(1.0, y.sort()))), self.allres(a, lambda t: z3.fpEQ(t, x))))
        return out
    def powle(self, A, B):
        a, b = A.args; c, d = B.args
        one = num(1.0, a.sort()); z = zero(b.sort())
        ok = And(*[Not(isNaN(v)) for v in (a, b, c, d)] + [Not(isNeg(a)), Not(isNeg(c))])
        def base(e, p, q): return Or(And(ge(e, z), le(p, q)), And(le(e, z), ge(p, q)))
        def expo(x, p, q): return Or(And(ge(x, one), le(p, q)), And(le(x, one), ge(p, q)))
        return And(ok, Or(And(base(b, a, c), expo(c, b, d)), And(expo(a, b, d), base(d, a, c))))
    def pownfacts(self, a):
        x, n = a.args; S = a.f.sort; out = []
        if isinstance(n, int): n = z3.BitVecVal(n, 64)
        odd = z3.Extract(0, 0, n) == 1; npos = n > 0; nz = n == 0
        one = num(1.0, x.sort()); r1 = num(1.0, S)
        ax = absx(x); neg = And(isNeg(x), odd)
        out.append(isNaN(next(iter(a.res.values()))) == And(isNaN(x), Not(nz)))
        ok = Not(isNaN(x))
        out.append(Implies(nz, self.allres(a, lambda t: z3.fpEQ(t, r1))))
        nn = And(ok, Not(nz))
        infr = Or(And(isInf(x), npos), And(isZero(x), Not(npos))); zr = Or(And(isZero(x), npos), And(isInf(x), Not(npos)))
        out.append(Implies(And(nn, infr), self.allres(a, lambda t: And(isInf(t), isNeg(t) == neg))))
        out.append(Implies(And(nn, zr), self.allres(a, isZero)))
        reg = And(nn, Not(infr), Not(zr))
        out += self.realfin(a, And(reg, Not(neg)), True) + self.realfin(a, And(reg, neg), False)
        out.append(Implies(And(reg, ge(ax, one) == npos), self.allres(a, lambda t: z3.fpGEQ(absx(t), r1))))
        out.append(Implies(And(reg, le(ax, one) == npos), self.allres(a, lambda t: z3.fpLEQ(absx(t), r1))))
        if x.sort() == S: out.append(Implies(n == 1, self.allres(a, lambda t: z3.fpEQ(t, x))))
        return out
    def pownle(self, A, B):
        a, m = A.args; c, n = B.args
        if isinstance(m, int) and isinstance(n, int):
            if m != n: return None
            n = z3.BitVecVal(n, 64); c0 = z3.BoolVal(True)
        else:
            bv = lambda k: z3.BitVecVal(k, 64) if isinstance(k, int) else k
            c0 = bv(m) == bv(n); n = bv(n)
        odd = z3.Extract(0, 0, n) == 1; npos = n > 0
        ok = And(c0, n != 0, Not(isNaN(a)), Not(isNaN(c)))
        A_, C_ = absx(a), absx(c)
        sa, sc = isNeg(a), isNeg(c)
        # |a|^n <= |c|^n
        mag = Or(And(npos, le(A_, C_)), And(Not(npos), ge(A_, C_))); rmag = Or(And(npos, ge(A_, C_)), And(Not(npos), le(A_, C_)))
        za, zc = And(isZero(a), npos), And(isZero(c), npos)
        return And(ok, Or(And(Not(odd), mag), And(odd, Or(And(sa, Not(sc)), And(Not(sa), Not(sc), mag), And(sa, sc, rmag), And(za, Not(sc)), And(sa, zc)))))

    def rel(self, a, b):
        """facts a <= b"""
        fn = a.fn
        if fn in UNARY:
            x, y = a.args[0], b.args[0]; p = UNARY[fn]
            if p == 'even': c = le(absx(x), absx(y))
            else:
                s = x.sort(); t = y.sort(); lo, hi, d = p[0]
                dom = And(le(num(lo, s), x), le(x, num(hi, s)), le(num(lo, t), y), le(y, num(hi, t)))
                c = And(dom, le(x, y) if d > 0 else le(y, x))
            return self.order(a, b, c)
        if fn == 'id':
            x, y = a.args[0], b.args[0]
            out = self.order(a, b, le(x, y))
            # a value of the target format separates roundings
            return out
        if fn in ('add', 'avg'):
            (x, y), (u, v) = a.args, b.args
            na = Not(Or(isNaN(next(iter(a.res.values()))), isNaN(next(iter(b.res.values())))))
            return self.order(a, b, And(na, Or(And(le(x, u), le(y, v)), And(le(x, v), le(y, u)))))
        if fn == 'mul': return self.order(a, b, self.prodle(*a.args, *b.args))
        if fn == 'div': return self.order(a, b, self.quole(*a.args, *b.args))
        if fn == 'fma':
            x, y, c = a.args; u, v, d = b.args
            na = Not(Or(isNaN(next(iter(a.res.values()))), isNaN(next(iter(b.res.values())))))
            return self.order(a, b, And(na, self.prodle(x, y, u, v), le(c, d)))
        if fn == 'pow': return self.order(a, b, self.powle(a, b))
        if fn == 'pown':
            c = self.pownle(a, b)
            return [] if c is None else self.order(a, b, c)
        if fn in EXTRA: return EXTRA[fn].rel(self, a, b)
        return []
EXTRA = {}
