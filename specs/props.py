from .lib import *
from . import wrap as WR
PROPS = {}
def prop(id, **k):
    def d(f):
        w = k.pop('wrap', None)
        PROPS[id] = dict(harnesses=(lambda tier: f(tier) + WR.forms(w.split())) if w else f, **k); return f
    return d
def fwd(names, tier, mixed=True):
    hs = []
    ts = 'df' if tier == 'quick' else 'dfl'
    for n in names:
        op = OPS[n]
        for t in ts:
            for dec in (False, True): hs.append(op_harnesses(op, t, (t,) * op.n, dec))
        if mixed:
            combos = {1: ['f:d', 'd:f'], 2: ['f:dd', 'd:fd', 'd:ff'], 3: ['f:ddd', 'd:fdf']}[op.n]
            if tier != 'quick': combos = combos + {1: ['l:f', 'f:l', 'd:l'], 2: ['f:df', 'f:fd', 'd:df', 'l:df', 'f:ll', 'd:lf', 'd:ld'], 3: ['l:fdl', 'f:dfd', 'd:ffd', 'f:lll']}[op.n]
            for c in combos:
                t, a = c.split(':')
                for dec in (False, True): hs.append(op_harnesses(op, t, tuple(a), dec))
    return hs
@prop('C05', wrap='pos neg add sub mul div recip sqr sqrt fma')
def _(tier): return fwd(['pos', 'neg', 'add', 'sub', 'mul', 'div', 'recip', 'sqr', 'sqrt', 'fma'], tier)
@prop('C06', wrap='pown pow')
def _(tier): return fwd(['pown', 'pow'], tier)
@prop('C07', wrap='exp exp2 exp10 log log2 log10')
def _(tier): return fwd(['exp', 'exp2', 'exp10', 'log', 'log2', 'log10'], tier)
@prop('C09', wrap='sinh cosh tanh asinh acosh atanh')
def _(tier): return fwd(['sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh'], tier)
@prop('C08', wrap='sin cos tan asin acos atan atan2')
def _(tier):
    from . import trig as T
    return fwd(['asin', 'acos', 'atan', 'atan2'], tier) + T.trigs(tier)
@prop('C10', wrap='sign ceil floor trunc round_ties_to_even round_ties_to_away abs min max')
def _(tier): return fwd(['sign', 'ceil', 'floor', 'trunc', 'round_ties_to_even', 'round_ties_to_away', 'abs', 'min', 'max'], tier)
from . import gen as G
from . import trig as TG
@prop('C02', group=16, wrap='is_empty is_entire is_common_interval is_singleton is_nai is_member equal subset less precedes interior strictly_less strictly_precedes disjoint superset greater succeeds contains_interior strictly_greater strictly_succeeds')
def _(tier): return G.bools(tier)
@prop('C03', wrap='overlap')
def _(tier): return G.overlaps(tier)
@prop('C04', wrap='intersection convex_hull')
def _(tier): return G.setops(tier)
@prop('C11', wrap='inf sup mid rad wid mag mig mid_rad')
def _(tier): return G.nums(tier)
@prop('C01', wrap='constructors')
def _(tier): return G.ctors(tier)
@prop('C12', wrap='cancel_minus cancel_plus')
def _(tier):
    from . import misc as MI
    return fwd(['cancel_minus', 'cancel_plus'], tier) + MI.two_sums(tier)
from . import rev as RV
@prop('C13', wrap='sqr_rev abs_rev cosh_rev pown_rev')
def _(tier): return RV.revs(tier)
@prop('C15', wrap='mul_rev mul_rev_to_pair')
def _(tier): return RV.muls(tier)
@prop('C25', group=24)
def _(tier): return WR.forms(WR.EVERY)
from . import flags as FL
@prop('C17')
def _(tier): return FL.flags(tier)
from . import misc as MI
@prop('C19')
def _(tier): return MI.reductions(tier)
from . import text as TX
@prop('C20')
def _(tier): return TX.texts(tier)
from . import out as OU
@prop('C21')
def _(tier): return OU.infsups(tier)
@prop('C22')
def _(tier): return OU.uncertains(tier)
from . import io as IOS
@prop('C23')
def _(tier): return IOS.ios(tier)
