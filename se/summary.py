"""Function summaries: a call of an operation that is itself verified (same run, own harness) is replaced by its specification."""
import subprocess
import z3
from . import ir
from .exec import *

def demap(m):
    d = getattr(m, '_demap', None)
    if d is None:
        ns = list(m.funcs)
        o = subprocess.run(['c++filt'], input='\n'.join(ns), capture_output=True, text=True).stdout.split('\n')
        d = m._demap = dict(zip(o, ns))
    return d
CT = {'f': 'float', 'd': 'double', 'l': 'long double'}
TY = {'f': ir.F32, 'd': ir.F64, 'l': ir.F80}
def bare(t): return 'std::pair<%s, %s>' % (CT[t], CT[t])
def decd(t): return 'std::pair<%s, p1788::decoration::decoration>' % bare(t)
FL = 'p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<%s>::%s(%s)'
def symbol(m, fn, t, args):
    return demap(m).get(FL % (CT[t], fn, ', '.join(args)))

def iv(e, p, t):
    sz = e.m.size(TY[t])
    return e.load(p, TY[t]), e.load(addp(p, sz), TY[t])
def addp(p, k):
    if isinstance(p, PIte): return PIte(p.c, addp(p.a, k), addp(p.b, k))
    return Ptr(p.o, p.f + k)
def put(e, p, t, lo, hi, d=None):
    sz = e.m.size(TY[t])
    e.store(p, lo, TY[t]); e.store(addp(p, sz), hi, TY[t])
    if d is not None: e.store(addp(p, 2 * sz), d, ir.IntTy(8))

def op_summary(op, t, dec, ctx, spec):
    """spec(c, xs, decs, ints) -> (lo, hi[, dec]) terms; NaN bounds when empty"""
    def g(e, args):
        f = e.m.func(g.name)
        nargs = op.n + len(op.ints)
        sret = len(args) == nargs + 1
        a = list(args); rp = a.pop(0) if sret else None
        sz = e.m.size(TY[t])
        xs = []; ds = []
        for i in range(op.n):
            xs.append(iv(e, a[i], t))
            if dec: 
                d = e.load(addp(a[i], 2 * sz), ir.IntTy(8)); ds.append(bv(d, 8))
        if any(x is UNDEF for p in xs for x in p): raise Unsupported('undef argument')
        ints = [bv(v, 32) for v in a[op.n:]]
        if g.guard and not e.decide(g.guard(xs, ds)): raise Unsupported('operation called with invalid operands')
        r = spec(ctx(e.reg, t), xs, ds, ints)
        e.funcs_seen[g.name] = e.funcs_seen.get(g.name, 0) + 1
        if sret: put(e, rp, t, *r); return None
        if dec: return ((r[0], r[1]), r[2])
        return (r[0], r[1])
    g.guard = None
    return g

def two_sum(t, name):
    """p1788::util::two_sum (checked by property C24): nearest sum and exact error"""
    def g(e, args):
        a = list(args); rp = a.pop(0) if len(a) == 3 else None
        x, y = e.load(a[0], TY[t]), e.load(a[1], TY[t])
        if x is UNDEF or y is UNDEF: raise Unsupported('undef argument')
        if e.pure: raise Impure()
        e.funcs_seen[name] = e.funcs_seen.get(name, 0) + 1
        # leaves the exponent range of the format behind
        from . import mpfr as M, fmt as F
        s = M.st(e); s.rng = (F.FMT[t].emin, F.FMT[t].emax); s.rng_set = [True, True]
        r = e.reg.two_sum(F.FMT[t], x, y)
        if rp is not None: put(e, rp, t, *r); return None
        return r
    return g
