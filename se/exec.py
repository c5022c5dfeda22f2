"""Symbolic executor for the LLVM IR of the real code.

Values: ints = python int (masked) or z3 BitVec; i1 = bool or z3 Bool; floats = z3 FP terms; pointers = Ptr / PIte /
NULL / FnPtr; aggregates = tuples; UNDEF.  Paths are explored depth first by re-execution with a recorded decision prefix;
side-effect free branch regions are merged with if-then-else instead of being forked."""
import struct, time
import z3
from . import ir
from .ir import Reg, CInt, CFP, CNull, CUndef, CZero, CAgg, CStr, CGlob, CGep, CCast

SORT = {'f': z3.FPSort(8, 24), 'd': z3.FPSort(11, 53), 'l': z3.FPSort(15, 64)}
PREC = {'f': 24, 'd': 53, 'l': 64}
RNE = z3.RNE()
ZRMS = {'N': z3.RNE(), 'D': z3.RTN(), 'U': z3.RTP(), 'Z': z3.RTZ()}
def sort_of(fmt): return SORT[fmt]

class Unsupported(Exception): pass
class Impure(Exception): pass
class Infeasible(Exception): pass
class Bad(Exception):
    """a definite error of the executed code on this path (out-of-bounds, double free, ...)"""
class Throw(Exception):
    def __init__(s, ptr, ti): s.ptr = ptr; s.ti = ti
class ProgAbort(Exception):
    def __init__(s, why): s.why = why

class Undef:
    def __repr__(s): return 'UNDEF'
UNDEF = Undef()
class Ptr:
    __slots__ = ('o', 'f')
    def __init__(s, o, f): s.o = o; s.f = f
    def __repr__(s): return '&%s+%s' % (s.o.name, s.f)
class PIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
class Null:
    def __repr__(s): return 'NULL'
NULL = Null()
class FnPtr:
    def __init__(s, n): s.n = n
class IntPtr:                       # integer made into a pointer
    def __init__(s, v): s.v = v

class Obj:
    __slots__ = ('id', 'name', 'size', 'cells', 'kind', 'alive', 'birth', 'const', 'meta')
    def __init__(s, id, name, size, kind, birth=0):
        s.id = id; s.name = name; s.size = size; s.cells = {}; s.kind = kind; s.alive = True; s.birth = birth; s.const = False; s.meta = None

def isb(v): return isinstance(v, bool)
def sym(v): return isinstance(v, z3.ExprRef)
def mask(n): return (1 << n) - 1

def bv(v, n):
    if isinstance(v, bool): return z3.BitVecVal(1 if v else 0, n)
    if isinstance(v, int): return z3.BitVecVal(v, n)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return v
def zb(v): return z3.BoolVal(v) if isinstance(v, bool) else v
def s64(v, n): return v - (1 << n) if v >> (n - 1) else v

def bnot(a): return (not a) if isinstance(a, bool) else z3.simplify(z3.Not(a))
def conc(t):
    """simplify a z3 bool; python bool if constant"""
    if isinstance(t, bool): return t
    t = z3.simplify(t)
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return t
def concbv(t):
    if isinstance(t, (int, bool)): return t
    t = z3.simplify(t)
    if z3.is_bv_value(t): return t.as_long()
    return t
class TernBase: pass
def rv(v): return v.bv() if isinstance(v, TernBase) else v
def ite(c, a, b, n=None):
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    a = rv(a); b = rv(b)
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a, tuple):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (Ptr, PIte, Null, FnPtr, IntPtr)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o and isinstance(a.f, int) and a.f == b.f: return a
        return PIte(c, a, b)
    if isinstance(a, bool) or isinstance(b, bool) or (sym(a) and z3.is_bool(a)):
        if isinstance(a, bool) and isinstance(b, bool) and a == b: return a
        return conc(z3.If(c, zb(a), zb(b)))
    if isinstance(a, int) and isinstance(b, int):
        if a == b: return a
        if n is None: raise Unsupported('ite width')
        return z3.If(c, z3.BitVecVal(a, n), z3.BitVecVal(b, n))
    if isinstance(a, int): a = z3.BitVecVal(a, b.size())
    if isinstance(b, int): b = z3.BitVecVal(b, a.size())
    if a.eq(b): return a
    return z3.If(c, a, b)

def fpconst(bits, fmt):
    if fmt == 'd': return fpval_bits(bits, 64, 'd')
    if fmt == 'f': return fpval_bits(bits, 32, 'f')
    s = bits >> 79; e = (bits >> 64) & 0x7fff; m = bits & mask(63)
    return z3.simplify(z3.fpFP(z3.BitVecVal(s, 1), z3.BitVecVal(e, 15), z3.BitVecVal(m, 63)))
def fpval_bits(bits, n, fmt):
    return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, n), SORT[fmt]))
def fp_to_bits(v, fmt):
    """IEEE bit pattern as BV (80-bit x87 layout for 'l'); NaN canonicalised"""
    if fmt == 'l':
        b = z3.fpToIEEEBV(v)    # 79 bits: s,e15,m63
        ib = z3.If(z3.Or(z3.fpIsSubnormal(v), z3.fpIsZero(v)), z3.BitVecVal(0, 1), z3.BitVecVal(1, 1))
        return z3.Concat(z3.Extract(78, 63, b), ib, z3.Extract(62, 0, b))
    return z3.fpToIEEEBV(v)
def bits_to_fp(b, fmt):
    if fmt == 'l':
        return z3.fpFP(z3.Extract(79, 79, b), z3.Extract(78, 64, b), z3.Extract(62, 0, b))
    return z3.fpBVToFP(b, SORT[fmt])
def const_bits(v, fmt):
    """python int bit pattern of a z3 FP numeral"""
    v = z3.simplify(v)
    b = z3.simplify(fp_to_bits(v, fmt))
    if z3.is_bv_value(b): return b.as_long()
    if z3.is_true(z3.simplify(z3.fpIsNaN(v))):
        return {'f': 0x7fc00000, 'd': 0x7ff8 << 48, 'l': (0x7fff << 64) | (3 << 62)}[fmt]
    raise Unsupported('not a numeral: %s' % v)
def is_const_fp(v):
    return isinstance(v, z3.FPNumRef) or z3.is_fp_value(v)

ONE1 = {}

class Engine:
    """explores all paths of `body(engine)`"""
    def __init__(self, module, externs, timeout_ms=20000):
        self.m = module; self.ext = externs
        self.timeout_ms = timeout_ms
        self.solver = z3.Solver(); self.solver.set('timeout', timeout_ms)
        self.stats = dict(paths=0, queries=0, solver_s=0.0, forks=0, merges=0, steps=0, infeasible=0)
        self.prefix = []          # list of decisions
        self.asserted = []        # assertions pushed on solver for decisions: list of terms
        self.funcs_seen = {}
        self.noimpure = {}
        self.maxsteps = 400000
        self.deadline = None
        self.tok = 0
        self.ids = {}
        self.reg = None; self.fset = set(); self.flevel = []

    # ------------------------------------------------------------------ exploration
    def explore(self, body, on_path, max_paths=20000):
        """body(engine)->result ; on_path(engine, result, error)"""
        self.prefix = []; todo = True
        self.solver.push()
        while True:
            if self.deadline and time.time() > self.deadline: raise Unsupported('time budget')
            self._reset_path()
            err = None; res = None
            try:
                res = body(self)
            except Infeasible:
                err = 'infeasible'
            except Unsupported as e:
                err = e
            except Bad as e:
                err = e
            except ProgAbort as e:
                err = e
            if err != 'infeasible':
                self.stats['paths'] += 1
                on_path(self, res, err)
            else: self.stats['infeasible'] += 1
            if self.stats['paths'] > max_paths: raise Unsupported('path budget')
            # backtrack
            while self.prefix and not self.prefix[-1][1]:
                self.prefix.pop()
            if not self.prefix: break
            v, alt = self.prefix.pop()
            self.prefix.append((alt[0], alt[1:]))
        while self.asserted: self._pop()
        self.solver.pop()

    def _reset_path(self):
        self.pos = 0; self.pc = []; self.objs = 0; self.pure = 0; self.globs = {}; self.nsteps = 0
        self.fresh_n = {}; self.heap = {}; self.side = {}; self.exc_ids = {}; self.events = []
        self.env_stack = []
        self.rm = 'N'
        self.mp = None
        for h in getattr(self, 'reset_hooks', []): h(self)

    def _pop(self):
        self.asserted.pop(); self.solver.pop()
        n = len(self.asserted)
        while self.flevel and self.flevel[-1][1] > n: self.fset.discard(self.flevel.pop()[0])

    def _assert_pc(self, term):
        """append term to path condition, keeping solver stack in step"""
        k = len(self.pc)
        self.pc.append(term)
        if k < len(self.asserted):
            if self.asserted[k].eq(term): return
            while len(self.asserted) > k: self._pop()
        self.solver.push(); self.solver.add(term); self.asserted.append(term)

    def assume(self, c):
        c = conc(c)
        if c is True: return
        if c is False: raise Infeasible()
        self._assert_pc(c)

    def check(self, *extra):
        t = time.time()
        # solver stack may be deeper than pc (left over from the previous path)
        while len(self.asserted) > len(self.pc): self._pop()
        if self.reg is not None:
            n = len(self.asserted)
            for f in self.reg.enginefacts():
                k = f.get_id()
                if k not in self.fset:
                    self.fset.add(k); self.flevel.append((k, n)); self.solver.add(f)
        r = self.solver.check(*extra)
        self.stats['queries'] += 1; self.stats['solver_s'] += time.time() - t
        return r

    def decide(self, c):
        c = conc(c)
        if isinstance(c, bool): return c
        if self.pure: raise Impure()
        # syntactic: already decided?
        for t in self.pc:
            if t.eq(c): return True
        nc = z3.simplify(z3.Not(c))
        for t in self.pc:
            if t.eq(nc): return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][0]; self.pos += 1
            self._assert_pc(c if v else nc)
            return v
        rt = self.check(c)
        if rt == z3.unsat:
            self.prefix.append((False, [])); self.pos += 1
            self._assert_pc(nc); return False
        rf = self.check(nc)
        if rf == z3.unsat:
            self.prefix.append((True, [])); self.pos += 1
            self._assert_pc(c); return True
        self.stats['forks'] += 1
        self.prefix.append((True, [False])); self.pos += 1
        self._assert_pc(c)
        return True

    def choose(self, options, term=None):
        """fork over concrete alternatives; options: list of (value, condition)"""
        if self.pure: raise Impure()
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos][0]; self.pos += 1
            self.assume(options[i][1]); return options[i][0]
        feas = []
        for i, (v, c) in enumerate(options):
            c = conc(c)
            if c is False: continue
            if c is True or self.check(c) != z3.unsat: feas.append(i)
        if not feas: raise Infeasible()
        self.prefix.append((feas[0], feas[1:])); self.pos += 1
        if len(feas) > 1: self.stats['forks'] += 1
        self.assume(options[feas[0]][1]); return options[feas[0]][0]

    def fresh(self, base, mk):
        n = self.fresh_n.get(base, 0); self.fresh_n[base] = n + 1
        return mk('%s!%d' % (base, n))

    # ------------------------------------------------------------------ memory
    def alloc(self, size, name, kind):
        self.objs += 1
        o = Obj(self.objs, name, size, kind, self.pure)
        return o
    def glob(self, n):
        n = self.m.aliases.get(n, n)
        if n in self.globs: return self.globs[n]
        if n in self.m.funcs or n in self.m.decls: return FnPtr(n)
        if n not in self.m.globals: raise Unsupported('global ' + n)
        t, init = self.m.global_info(n)
        try: sz = self.m.size(t)
        except ir.IRError: sz = 1 << 20
        o = Obj(-len(self.globs) - 1, '@' + n, sz, 'global', 0)
        self.globs[n] = Ptr(o, 0)
        if init is not None: self.init(o, 0, t, init)
        else: o.meta = 'external'
        return self.globs[n]
    def init(self, o, off, t, c):
        t = self.m.resolve(t)
        if isinstance(c, CStr):
            for i, b in enumerate(c.b): o.cells[off + i] = (1, b)
        elif isinstance(c, CAgg):
            for i, e in enumerate(c.els):
                d, et = self.m.offset(t, i); self.init(o, off + d, et, e)
        elif isinstance(c, CZero):
            self.zero(o, off, t)
        elif isinstance(c, CUndef): pass
        else:
            o.cells[off] = (self.m.size(t), self.const(c, t))
    def zero(self, o, off, t):
        t = self.m.resolve(t)
        if t.k in ('arr', 'vec'):
            if t.a > 4096: raise Unsupported('large zero array')
            for i in range(t.a): self.zero(o, off + i * self.m.size(t.b), t.b)
        elif t.k == 'struct':
            for i in range(len(t.a)):
                d, et = self.m.offset(t, i); self.zero(o, off + d, et)
        else: o.cells[off] = (self.m.size(t), self.zeroval(t))
    def zeroval(self, t):
        t = self.m.resolve(t)
        if t.k == 'int': return False if t.a == 1 else 0
        if t.k == 'fp': return fpconst(0, t.a)
        if t.k == 'ptr': return NULL
        if t.k == 'struct': return tuple(self.zeroval(e) for e in t.a)
        if t.k in ('arr', 'vec'): return tuple(self.zeroval(t.b) for _ in range(t.a))
        raise Unsupported('zero')

    def _chk(self, p, size, what):
        if isinstance(p, Null): raise Bad('null %s' % what)
        if isinstance(p, IntPtr): raise Unsupported('int pointer deref')
        if isinstance(p, FnPtr): raise Unsupported('fn deref')
        if p is UNDEF: raise Unsupported('undef pointer')
        if not isinstance(p.f, int): raise Unsupported('symbolic offset')
        o = p.o
        if not o.alive: raise Bad('%s of dead object %s' % (what, o.name))
        if p.f < 0 or p.f + size > o.size: raise Bad('out of bounds %s: %s+%d size %d of %d' % (what, o.name, p.f, size, o.size))

    def concretize_ptr(self, p, size):
        """symbolic offset -> fork over feasible in-object offsets (at most 64)"""
        if isinstance(p, Ptr) and not isinstance(p.f, int):
            f = concbv(p.f)
            if isinstance(f, int): return Ptr(p.o, s64(f, 64))
            if self.pure: raise Impure()
            vals = []
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos][0]
            self.solver_sync()
            s = self.solver; s.push()
            key = ('cp', self.pos)
            cache = self.__dict__.setdefault('_cpcache', {})
            ck = (tuple(d[0] for d in self.prefix[:self.pos]), self.pos)
            if ck in cache: vals = cache[ck]
            else:
                while len(vals) <= 80 and s.check() == z3.sat:
                    v = s.model().eval(f, model_completion=True).as_long(); vals.append(v); s.add(f != v)
                if len(vals) > 80: s.pop(); raise Unsupported('symbolic offset')
                vals.sort(); cache[ck] = vals
            s.pop()
            v = self.choose([(v, f == v) for v in vals])
            return Ptr(p.o, s64(v, 64))
        return p
    def solver_sync(self):
        while len(self.asserted) > len(self.pc): self._pop()

    def fresh_byte(self):
        n = self.side.get('undefb', 0); self.side['undefb'] = n + 1
        return z3.BitVec('undef%d' % n, 8)
    def load(self, p, t):
        t = self.m.resolve(t)
        if isinstance(p, PIte):
            n = t.a if t.k == 'int' else None
            return ite(p.c, self.load(p.a, t), self.load(p.b, t), n)
        p = self.concretize_ptr(p, 0)
        if t.k == 'struct':
            return tuple(self.load(Ptr(p.o, p.f + self.m.offset(t, i)[0]), e) for i, e in enumerate(t.a))
        if t.k in ('arr', 'vec'):
            return tuple(self.load(Ptr(p.o, p.f + i * self.m.size(t.b)), t.b) for i in range(t.a))
        size = self.m.size(t)
        self._chk(p, size, 'load')
        if p.o.meta == 'external': raise Unsupported('load of external global ' + p.o.name)
        c = p.o.cells.get(p.f)
        if c is not None and c[0] == size:
            return self.conv(c[1], t)
        bs = self.loadbytes(p.o, p.f, size)
        if all(b is UNDEF for b in bs): return UNDEF
        if any(b is UNDEF for b in bs):
            if t.k == 'fp' and t.a == 'l' and all(b is not UNDEF for b in bs[:10]): pass
            elif t.k == 'int' and t.a > 8:      # copying a partly filled buffer: the missing bytes are arbitrary
                bs = [self.fresh_byte() if b is UNDEF else b for b in bs]
            else: raise Unsupported('partially undefined load')
        if t.k == 'fp' and t.a == 'l': bs = bs[:10]
        if all(isinstance(b, int) for b in bs):
            v = int.from_bytes(bytes(bs), 'little')
        else:
            v = z3.simplify(z3.Concat(*[bv(b, 8) for b in reversed(bs)])) if len(bs) > 1 else bs[0]
        if t.k == 'int':
            if isinstance(v, int):
                return bool(v & 1) if t.a == 1 else v & mask(t.a)
            if v.size() > t.a: v = z3.Extract(t.a - 1, 0, v)
            if t.a == 1: return conc(v == 1)
            return v
        if t.k == 'fp':
            if isinstance(v, int): return fpconst(v, t.a)
            return z3.simplify(bits_to_fp(v, t.a))
        if t.k == 'ptr':
            if v == 0: return NULL
            if isinstance(v, int): return IntPtr(v)
        raise Unsupported('byte load of %r' % t)
    def conv(self, v, t):
        if v is UNDEF or isinstance(v, TernBase): return v
        if t.k == 'int':
            if isinstance(v, bool): return v if t.a == 1 else int(v)
            if isinstance(v, int): return bool(v & 1) if t.a == 1 else v & mask(t.a)
            if sym(v):
                if z3.is_bool(v): return v if t.a == 1 else bv(v, t.a)
                if z3.is_fp(v):
                    fmt = {24: 'f', 53: 'd', 64: 'l'}[v.sbits()]
                    b = z3.simplify(fp_to_bits(v, fmt))
                    if z3.is_bv_value(b): return b.as_long()
                    return b
                if t.a == 1: return conc(z3.Extract(0, 0, v) == 1)
                if v.size() > t.a: return z3.Extract(t.a - 1, 0, v)
                return v
            if isinstance(v, Null): return 0
            return PInt(v) if isinstance(v, (Ptr, FnPtr)) else v
        if t.k == 'fp':
            if sym(v) and z3.is_fp(v): return v
            if isinstance(v, int): return fpconst(v, t.a)
            return z3.simplify(bits_to_fp(v, t.a))
        if t.k == 'ptr':
            if isinstance(v, int): return NULL if v == 0 else IntPtr(v)
            if isinstance(v, PInt): return v.p
            return v
        return v
    def loadbytes(self, o, off, n):
        out = []; i = off; end = off + n
        while i < end:
            # find covering cell
            found = None
            for back in range(0, 17):
                c = o.cells.get(i - back)
                if c is not None and c[0] > back: found = (i - back, c); break
                if c is not None and back == 0: pass
            if found is None: out.append(UNDEF); i += 1; continue
            st, (sz, v) = found
            k = i - st
            out.append(self.byteof(v, sz, k)); i += 1
        return out
    def byteof(self, v, sz, k):
        v = rv(v)
        if v is UNDEF: return UNDEF
        if isinstance(v, bool): return int(v) if k == 0 else 0
        if isinstance(v, int): return (v >> (8 * k)) & 255
        if isinstance(v, Null): return 0
        if sym(v):
            if z3.is_bool(v): return bv(v, 8) if k == 0 else 0
            if z3.is_fp(v):
                fmt = {24: 'f', 53: 'd', 64: 'l'}[v.sbits()]
                v = fp_to_bits(v, fmt)
            if 8 * k >= v.size(): return UNDEF
            r = z3.simplify(z3.Extract(8 * k + 7, 8 * k, v))
            return r.as_long() if z3.is_bv_value(r) else r
        return ('pb', v, k)
    def store(self, p, v, t):
        t = self.m.resolve(t)
        if isinstance(p, PIte):
            if self.decide(p.c): return self.store(p.a, v, t)
            return self.store(p.b, v, t)
        p = self.concretize_ptr(p, 0)
        if t.k == 'struct':
            for i, e in enumerate(t.a):
                self.store(Ptr(p.o, p.f + self.m.offset(t, i)[0]), v[i] if v is not UNDEF else UNDEF, e)
            return
        if t.k in ('arr', 'vec'):
            for i in range(t.a): self.store(Ptr(p.o, p.f + i * self.m.size(t.b)), v[i] if v is not UNDEF else UNDEF, t.b)
            return
        size = self.m.size(t)
        self._chk(p, size, 'store')
        if self.pure and p.o.birth < self.pure: raise Impure()
        self.putcell(p.o, p.f, size, v)
    def putcell(self, o, off, size, v):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            o.cells[off] = (size, v); return
        self.clear(o, off, size)
        o.cells[off] = (size, v)
    def clear(self, o, off, size):
        """drop/explode cells overlapping [off, off+size)"""
        for st in [s for s in o.cells if s < off + size and s + o.cells[s][0] > off]:
            sz, v = o.cells.pop(st)
            if st < off or st + sz > off + size:
                for k in range(sz):
                    if not (off <= st + k < off + size):
                        b = self.byteof(v, sz, k)
                        if b is not UNDEF: o.cells[st + k] = (1, b)
    def memcpy(self, d, s, n):
        if n == 0: return
        d = self.concretize_ptr(d, 0); s = self.concretize_ptr(s, 0)
        if isinstance(d, PIte) or isinstance(s, PIte):
            if isinstance(s, PIte): s = s.a if self.decide(s.c) else s.b; return self.memcpy(d, s, n)
            d = d.a if self.decide(d.c) else d.b; return self.memcpy(d, s, n)
        self._chk(s, n, 'memcpy load'); self._chk(d, n, 'memcpy store')
        if self.pure and d.o.birth < self.pure: raise Impure()
        new = []; i = 0
        for st in sorted(x for x in s.o.cells if x < s.f + n and x + s.o.cells[x][0] > s.f):
            sz, v = s.o.cells[st]
            if st >= s.f and st + sz <= s.f + n: new.append((st - s.f, sz, v))
            else:
                for k in range(sz):
                    if s.f <= st + k < s.f + n:
                        b = self.byteof(v, sz, k)
                        if b is not UNDEF: new.append((st + k - s.f, 1, b))
        self.clear(d.o, d.f, n)
        for o, sz, v in new: d.o.cells[d.f + o] = (sz, v)
        for h in self.copy_hooks: h(self, d, s, n)
    copy_hooks = []

    # ------------------------------------------------------------------ operands
    def const(self, c, t):
        t0 = t
        if isinstance(c, CInt):
            if t.k == 'int': return bool(c.v & 1) if t.a == 1 else c.v & mask(t.a)
            raise Unsupported('int const')
        if isinstance(c, CFP):
            if c.fmt == 'd' or c.fmt == 'l' or c.fmt == 'f': return fpconst(c.bits, c.fmt)
            if c.fmt == 'd2f':
                f = struct.unpack('<d', struct.pack('<Q', c.bits))[0]
                if f != f: return z3.fpNaN(SORT['f'])
                return fpconst(struct.unpack('<I', struct.pack('<f', f))[0], 'f')
            raise Unsupported('fp const ' + c.fmt)
        if isinstance(c, CNull): return NULL
        if isinstance(c, CUndef): return UNDEF
        if isinstance(c, CZero): return self.zeroval(t)
        if isinstance(c, CAgg):
            t = self.m.resolve(t)
            return tuple(self.const(e, t.b if t.k in ('arr', 'vec') else t.a[i]) for i, e in enumerate(c.els))
        if isinstance(c, CStr): return tuple(c.b)
        if isinstance(c, CGlob): return self.glob(c.n)
        if isinstance(c, CGep): return self.gep(c.ty, self.const(c.base, ir.PTR), [(it, self.const(i, it)) for it, i in c.idx])
        if isinstance(c, CCast):
            return self.cast(c.op, self.const(c.v, c.ty), c.ty, c.to)
        raise Unsupported('const %r' % c)
    def val(self, a, t, env):
        if type(a) is Reg:
            return env[a.n]
        return self.const(a, t)
    def gep(self, ty, p, idx):
        if isinstance(p, PIte): return PIte(p.c, self.gep(ty, p.a, idx), self.gep(ty, p.b, idx))
        off = 0; t = ty
        for k, (it, i) in enumerate(idx):
            if i is UNDEF: raise Unsupported('undef index')
            n = it.a
            if isinstance(i, bool): i = int(i)
            if k == 0: sz = self.m.size(t)
            else:
                r = self.m.resolve(t)
                if r.k == 'struct':
                    d, t = self.m.offset(r, i); off = off + d if isinstance(off, int) else off + z3.BitVecVal(d, 64); continue
                t = r.b; sz = self.m.size(t)
            if isinstance(i, int): d = s64(i, n) * sz
            else:
                i = z3.SignExt(64 - n, i) if n < 64 else i
                d = i * z3.BitVecVal(sz, 64)
            if isinstance(off, int) and isinstance(d, int): off += d
            else: off = bv(off & mask(64) if isinstance(off, int) else off, 64) + bv(d & mask(64) if isinstance(d, int) else d, 64)
        if not isinstance(off, int):
            o2 = concbv(off); off = s64(o2, 64) if isinstance(o2, int) else o2
        if isinstance(p, Null):
            if off == 0: return NULL
            return IntPtr(off)
        if isinstance(p, IntPtr): return IntPtr(p.v + off) if isinstance(off, int) else UNDEF
        if p is UNDEF: return UNDEF
        if isinstance(p, FnPtr): raise Unsupported('gep fn')
        if isinstance(p.f, int) and isinstance(off, int): return Ptr(p.o, p.f + off)
        f = concbv(bv(p.f & mask(64) if isinstance(p.f, int) else p.f, 64) + bv(off & mask(64) if isinstance(off, int) else off, 64))
        return Ptr(p.o, s64(f, 64) if isinstance(f, int) else f)

    def ptrcmp(self, pred, a, b):
        if isinstance(a, PIte): return ite(a.c, self.ptrcmp(pred, a.a, b), self.ptrcmp(pred, a.b, b))
        if isinstance(b, PIte): return ite(b.c, self.ptrcmp(pred, a, b.a), self.ptrcmp(pred, a, b.b))
        if a is UNDEF or b is UNDEF: raise Unsupported('undef ptr cmp')
        def key(p):
            if isinstance(p, Null): return (0, 0)
            if isinstance(p, Ptr): return (id(p.o), p.f)
            if isinstance(p, FnPtr): return (p.n, 0)
            return (0, p.v)
        ka, kb = key(a), key(b)
        if pred in ('eq', 'ne'):
            if ka[0] != kb[0]: r = False
            elif isinstance(ka[1], int) and isinstance(kb[1], int): r = ka[1] == kb[1]
            else: r = conc(bv(ka[1], 64) == bv(kb[1], 64))
            return r if pred == 'eq' else bnot(r)
        if ka[0] != kb[0]:
            # std::less over unrelated objects (std::string's overlap test): objects do not overlap, their order is that of their creation
            if getattr(self, 'ptr_order', False) and isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(a.f, int) and isinstance(b.f, int) and 0 <= a.f <= (a.o.size or 0) and 0 <= b.f <= (b.o.size or 0):
                lt = a.o.id < b.o.id
                return lt if pred in ('ult', 'ule', 'slt', 'sle') else not lt
            raise Unsupported('ordering of unrelated pointers')
        return self.icmp(pred, ka[1] & mask(64) if isinstance(ka[1], int) else ka[1], kb[1] & mask(64) if isinstance(kb[1], int) else kb[1], 64)
    def icmp(self, pred, a, b, n):
        a = rv(a); b = rv(b)
        if a is UNDEF or b is UNDEF: return self.fresh('undefcmp', z3.Bool)
        if n == 1:
            if isinstance(a, bool) and isinstance(b, bool): a, b = int(a), int(b)
            else:
                a, b = zb(a), zb(b)
                r = {'eq': a == b, 'ne': z3.Xor(a, b), 'ult': z3.And(z3.Not(a), b), 'ugt': z3.And(a, z3.Not(b)),
                     'ule': z3.Or(z3.Not(a), b), 'uge': z3.Or(a, z3.Not(b)),
                     'sgt': z3.And(z3.Not(a), b), 'slt': z3.And(a, z3.Not(b))}[pred]
                return conc(r)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt) and isinstance(b, PInt): return self.ptrcmp(pred, a.p, b.p)
            if pred in ('eq', 'ne') and (a == 0 or b == 0): return pred == 'ne'
            raise Unsupported('ptrint cmp')
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's': a, b = s64(a, n), s64(b, n)
            p = pred[-2:]
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
        a, b = bv(a, n), bv(b, n)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b),
             'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
        return conc(r)
    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF: return self.fresh('undefcmp', z3.Bool)
        na = z3.fpIsNaN(a); nb = z3.fpIsNaN(b)
        def o():
            return {'eq': lambda: z3.fpEQ(a, b), 'gt': lambda: z3.fpGT(a, b), 'ge': lambda: z3.fpGEQ(a, b), 'lt': lambda: z3.fpLT(a, b),
                    'le': lambda: z3.fpLEQ(a, b)}[pred[1:]]()
        if pred == 'false': return False
        if pred == 'true': return True
        if pred == 'uno': return conc(na if b is a else (z3.Or(na, nb)))
        if pred == 'ord': return conc(z3.Not(z3.Or(na, nb)))
        if pred == 'one': return conc(z3.And(z3.Not(z3.Or(na, nb)), z3.Not(z3.fpEQ(a, b))))
        if pred == 'une': return conc(z3.Not(z3.fpEQ(a, b)))
        if pred == 'ueq': return conc(z3.Or(na, nb, z3.fpEQ(a, b)))
        if pred[0] == 'o': return conc(o())
        inv = {'ugt': z3.fpLEQ, 'uge': z3.fpLT, 'ult': z3.fpGEQ, 'ule': z3.fpGT}[pred]
        return conc(z3.Not(inv(a, b)))
    def cast(self, op, v, t, to):
        v = rv(v)
        if v is UNDEF: return UNDEF
        if t.k == 'vec' or to.k == 'vec': raise Unsupported('vector cast')
        if op == 'zext':
            if isinstance(v, bool): return int(v)
            if isinstance(v, int): return v
            if z3.is_bool(v): return bv(v, to.a)
            return concbv(z3.ZeroExt(to.a - t.a, v))
        if op == 'sext':
            if isinstance(v, bool): return mask(to.a) if v else 0
            if isinstance(v, int): return s64(v, t.a) & mask(to.a)
            if z3.is_bool(v): return z3.If(v, z3.BitVecVal(mask(to.a), to.a), z3.BitVecVal(0, to.a))
            return z3.SignExt(to.a - t.a, v)
        if op == 'trunc':
            if isinstance(v, int): return bool(v & 1) if to.a == 1 else v & mask(to.a)
            if to.a == 1: return conc(z3.Extract(0, 0, v) == 1)
            return concbv(z3.Extract(to.a - 1, 0, v))
        if op == 'bitcast':
            return self.conv(v, to)
        if op == 'ptrtoint':
            if isinstance(v, Null): return 0
            if isinstance(v, IntPtr): return v.v & mask(64)
            return PInt(v)
        if op == 'inttoptr':
            if isinstance(v, PInt): return v.p
            if v == 0: return NULL
            return IntPtr(v)
        if op == 'fpext' or op == 'fptrunc':
            if is_const_fp(v): return z3.simplify(z3.fpFPToFP(ZRMS[self.rm], v, SORT[to.a]))
            if op == 'fpext':
                from .apps import cv
                return cv(v, SORT[to.a])
            return z3.fpFPToFP(ZRMS[self.rm], v, SORT[to.a])
        if op in ('sitofp', 'uitofp'):
            f = z3.fpSignedToFP if op[0] == 's' else z3.fpUnsignedToFP
            return z3.simplify(f(RNE, bv(v, t.a), SORT[to.a]))
        if op in ('fptosi', 'fptoui'):
            f = z3.fpToSBV if op == 'fptosi' else z3.fpToUBV
            return concbv(f(z3.RTZ(), v, z3.BitVecSort(to.a)))
        raise Unsupported('cast ' + op)
    def binop(self, op, a, b, n):
        a = rv(a); b = rv(b)
        if a is UNDEF or b is UNDEF: return UNDEF
        if n == 1:
            if isinstance(a, bool) and isinstance(b, bool):
                return {'and': a and b, 'or': a or b, 'xor': a != b, 'add': a != b, 'sub': a != b}[op]
            x, y = zb(a), zb(b)
            return conc({'and': lambda: z3.And(x, y), 'or': lambda: z3.Or(x, y), 'xor': lambda: z3.Xor(x, y), 'add': lambda: z3.Xor(x, y), 'sub': lambda: z3.Xor(x, y)}[op]())
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt) and isinstance(a.p, Ptr) and isinstance(b.p, Ptr) and a.p.o is b.p.o:
                fa, fb = a.p.f, b.p.f
                if isinstance(fa, int) and isinstance(fb, int): return (fa - fb) & mask(n)
                return concbv(bv(fa, 64) - bv(fb, 64))
            if op in ('add', 'sub') and isinstance(a, PInt) and isinstance(b, int) and isinstance(a.p, Ptr):
                return PInt(Ptr(a.p.o, a.p.f + (s64(b, n) if op == 'add' else -s64(b, n))))
            if op == 'and' and isinstance(b, int) and b < 16 and isinstance(a.p, Ptr) and isinstance(a.p.f, int): return a.p.f & b
            if op == 'sub' and (a == 0 and isinstance(a, int) or b == 0 and isinstance(b, int)): return UNDEF if isinstance(a, int) else a      # computed speculatively by the optimiser
            raise Unsupported('pointer arithmetic %s %s %s' % (op,a,b))
        if isinstance(a, int) and isinstance(b, int):
            M = mask(n)
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < n else 0
            if op == 'lshr': return a >> b if b < n else 0
            if op == 'ashr': return (s64(a, n) >> min(b, n - 1)) & M
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0: raise Bad('division by zero')
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                x, y = s64(a, n), s64(b, n); q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return (q if op == 'sdiv' else x - q * y) & M
        x, y = bv(a, n), bv(b, n)
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
             'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
             'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
        return concbv(r)
    def fbin(self, op, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        rm = ZRMS[self.rm]
        r = {'fadd': lambda: z3.fpAdd(rm, a, b), 'fsub': lambda: z3.fpSub(rm, a, b), 'fmul': lambda: z3.fpMul(rm, a, b), 'fdiv': lambda: z3.fpDiv(rm, a, b)}[op]()
        return z3.simplify(r) if is_const_fp(a) and is_const_fp(b) else r

    # ------------------------------------------------------------------ execution
    def call(self, name, args):
        name = self.m.aliases.get(name, name)
        h = self.ext.get(name)
        if h is not None:
            if name.startswith('mpfr_'):
                # a variable chosen by a condition (mpfr_cmp(a,b)>0 ? a : b): split on the condition
                for i, a in enumerate(args):
                    while isinstance(a, PIte): a = a.a if self.decide(a.c) else a.b
                    args[i] = a
            return h(self, args)
        f = self.m.func(name)
        if f is None:
            h = self.ext.get('*')
            if h: 
                r = h(self, name, args)
                if r is not NotImplemented: return r
            raise Unsupported('external ' + name)
        self.funcs_seen[name] = self.funcs_seen.get(name, 0) + 1
        if len(self.env_stack) > 200: raise Unsupported('recursion')
        env = {}
        for (t, nm), v in zip(f.params, args): env[nm] = v
        if f.vararg: raise Unsupported('vararg definition')
        st = []
        self.env_stack.append(name)
        try:
            r = self.run(f, env, f.entry, None, None, st)
        finally:
            self.env_stack.pop()
            for o in st: o.alive = False
        return r[1]

    def run(self, f, env, block, prev, stop, st):
        """returns ('ret', value) or ('stop', prev)"""
        skip_phi = False
        while True:
            if block == stop: return ('stop', prev)
            instrs = f.blocks[block]; k = 0
            if not skip_phi:
                news = []
                while instrs[k].op == 'phi':
                    I = instrs[k]; news.append((I.dst, self.val(I.inc[prev], I.ty, env))); k += 1
                for d, v in news: env[d] = v
            else:
                while instrs[k].op == 'phi': k += 1
            skip_phi = False
            nb = None
            while k < len(instrs):
                I = instrs[k]; k += 1; op = I.op
                self.nsteps += 1; self.stats['steps'] += 1
                if self.nsteps > self.maxsteps: raise Unsupported('step budget')
                if op == 'load': env[I.dst] = self.load(self.val(I.a, ir.PTR, env), I.ty)
                elif op == 'store': self.store(self.val(I.b, ir.PTR, env), self.val(I.a, I.ty, env), I.ty)
                elif op == 'getelementptr':
                    env[I.dst] = self.gep(I.ty, self.val(I.a, ir.PTR, env), [(t, self.val(v, t, env)) for t, v in I.idx])
                elif op == 'call' or op == 'invoke':
                    try:
                        r = self.docall(I, env)
                    except Throw as e:
                        if op == 'call': raise
                        if self.pure: raise Impure()
                        prev, block = block, I.unwind
                        env['!exc'] = e
                        nb = block; break
                    if I.dst: env[I.dst] = r
                    if op == 'invoke': prev, nb = block, I.normal; break
                elif op == 'br':
                    if I.a is None: prev, nb = block, I.t; break
                    c = self.val(I.a, ir.IntTy(1), env)
                    if c is UNDEF: raise Unsupported('branch on undef')
                    c = conc(c)
                    if isinstance(c, bool): prev, nb = block, (I.t if c else I.f); break
                    if I.t == I.f: prev, nb = block, I.t; break
                    m = self.merge(f, env, block, I, c, stop, st)
                    if m is not None:
                        if m[0] == 'ret': return m
                        prev, nb = None, m[1]; skip_phi = True; break
                    d = self.decide(c)
                    prev, nb = block, (I.t if d else I.f); break
                elif op == 'ret':
                    return ('ret', None if I.a is None else self.val(I.a, I.ty, env), I.ty)
                elif op == 'icmp':
                    a = self.val(I.a, I.ty, env); b = self.val(I.b, I.ty, env)
                    if I.ty.k == 'ptr': env[I.dst] = self.ptrcmp(I.pred, a, b)
                    elif I.ty.k == 'int': env[I.dst] = self.icmp(I.pred, a, b, I.ty.a)
                    elif I.ty.k == 'vec': env[I.dst] = tuple(self.icmp(I.pred, x, y, I.ty.b.a) for x, y in zip(a, b))
                    else: raise Unsupported('icmp')
                elif op == 'fcmp':
                    a = self.val(I.a, I.ty, env); b = self.val(I.b, I.ty, env)
                    if I.ty.k == 'vec': env[I.dst] = tuple(self.fcmp(I.pred, x, y) for x, y in zip(a, b))
                    else: env[I.dst] = self.fcmp(I.pred, a, b)
                elif op == 'select':
                    c = self.val(I.a, I.ct, env); a = self.val(I.b, I.ty, env); b = self.val(I.c, I.ty, env)
                    if c is UNDEF: env[I.dst] = a
                    elif isinstance(c, tuple): env[I.dst] = tuple(ite(x, y, z) for x, y, z in zip(c, a, b))
                    else: env[I.dst] = ite(conc(c), a, b, I.ty.a if I.ty.k == 'int' else None)
                elif op == 'phi': raise Unsupported('late phi')
                elif op in ('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'):
                    a = self.val(I.a, I.ty, env); b = self.val(I.b, I.ty, env)
                    if I.ty.k == 'vec': env[I.dst] = tuple(self.binop(op, x, y, I.ty.b.a) for x, y in zip(a, b))
                    else: env[I.dst] = self.binop(op, a, b, I.ty.a)
                elif op in ('fadd','fsub','fmul','fdiv','frem'):
                    a = self.val(I.a, I.ty, env); b = self.val(I.b, I.ty, env)
                    if I.ty.k == 'vec': env[I.dst] = tuple(self.fbin(op, x, y) for x, y in zip(a, b))
                    else: env[I.dst] = self.fbin(op, a, b)
                elif op == 'fneg':
                    a = self.val(I.a, I.ty, env)
                    if a is UNDEF: env[I.dst] = a
                    elif I.ty.k == 'vec': env[I.dst] = tuple(z3.simplify(z3.fpNeg(x)) for x in a)
                    else: env[I.dst] = z3.simplify(z3.fpNeg(a))
                elif op == 'freeze': env[I.dst] = self.val(I.a, I.ty, env)
                elif op in ('zext','sext','trunc','bitcast','ptrtoint','inttoptr','fptrunc','fpext','sitofp','uitofp','fptosi','fptoui'):
                    env[I.dst] = self.cast(op, self.val(I.a, I.ty, env), I.ty, I.to)
                elif op == 'extractvalue':
                    v = self.val(I.a, I.ty, env)
                    for i in I.path:
                        if v is UNDEF: break
                        v = v[i]
                    env[I.dst] = v
                elif op == 'insertvalue':
                    v = self.val(I.a, I.ty, env); b = self.val(I.b, None, env) if isinstance(I.b, Reg) else self.const(I.b, self.subty(I.ty, I.path))
                    env[I.dst] = self.insval(v, I.ty, I.path, b)
                elif op == 'extractelement':
                    v = self.val(I.a, I.ty, env); i = self.val(I.b, ir.IntTy(64), env); env[I.dst] = UNDEF if v is UNDEF else v[i]
                elif op == 'insertelement':
                    v = self.val(I.a, I.ty, env); i = self.val(I.c, ir.IntTy(64), env)
                    if v is UNDEF: v = (UNDEF,) * I.ty.a
                    v = list(v); v[i] = self.val(I.b, I.ty.b, env); env[I.dst] = tuple(v)
                elif op == 'shufflevector':
                    a = self.val(I.a, I.ty, env); b = self.val(I.b, I.ty, env)
                    if a is UNDEF: a = (UNDEF,) * I.ty.a
                    if b is UNDEF: b = (UNDEF,) * I.ty.a
                    mk = I.c
                    if isinstance(mk, CZero): raise Unsupported('shuffle zero')
                    if isinstance(mk, CAgg): env[I.dst] = tuple(UNDEF if isinstance(e, CUndef) else (a + b)[e.v] for e in mk.els)
                    else: raise Unsupported('shuffle')
                elif op == 'alloca':
                    n = 1 if I.n is None else self.val(I.n, ir.IntTy(64), env)
                    if not isinstance(n, int): raise Unsupported('symbolic alloca')
                    o = self.alloc(self.m.size(I.ty) * n, f.name[-30:] + I.dst, 'stack'); st.append(o); env[I.dst] = Ptr(o, 0)
                elif op == 'switch':
                    v = self.val(I.a, I.ty, env)
                    if v is UNDEF: raise Unsupported('switch on undef')
                    v = concbv(v)
                    if isinstance(v, int):
                        nb = I.d
                        for c, l in I.cases:
                            if (c.v & mask(I.ty.a)) == v: nb = l; break
                        prev = block; break
                    n = I.ty.a
                    nb = None
                    m = self.merge_switch(f, env, block, I, v, stop, st)
                    if m is not None:
                        if m[0] == 'ret': return m
                        prev, nb = None, m[1]; skip_phi = True; break
                    for c, l in I.cases:
                        if self.decide(v == z3.BitVecVal(c.v, n)): nb = l; break
                    if nb is None: nb = I.d
                    prev = block; break
                elif op == 'landingpad':
                    e = env.pop('!exc')
                    env[I.dst] = self.landing(e, I, env)
                elif op == 'resume':
                    v = self.val(I.a, I.ty, env)
                    raise v[0].exc
                elif op == 'unreachable': raise Unsupported('unreachable reached')
                elif op == 'fence': pass
                else: raise Unsupported('instruction ' + getattr(I, 'text', op))
            if nb is None: raise Unsupported('fell off block')
            block = nb

    def subty(self, t, path):
        for i in path: t = self.m.offset(t, i)[1]
        return t
    def insval(self, v, t, path, b):
        t = self.m.resolve(t)
        n = len(t.a) if t.k == 'struct' else t.a
        if v is UNDEF: v = (UNDEF,) * n
        v = list(v)
        if len(path) == 1: v[path[0]] = b
        else: v[path[0]] = self.insval(v[path[0]], self.m.offset(t, path[0])[1], path[1:], b)
        return tuple(v)

    def docall(self, I, env):
        fn = I.fn
        args = [None if v is None else self.val(v, t, env) for t, v in I.args]
        if isinstance(fn, CGlob): return self.call(fn.n, args)
        p = self.val(fn, ir.PTR, env)
        if isinstance(p, FnPtr): return self.call(p.n, args)
        raise Unsupported('indirect call')

    # exceptions
    def landing(self, e, I, env):
        tok = ExcTok(e)
        sel = 0
        for k, v in I.clauses:
            if k == 'cleanup': continue
            if k == 'catch':
                if isinstance(v, CNull): sel = self.tid(None); break
                tv = self.const(v, ir.PTR)
                n = tv.o.name[1:] if isinstance(tv, Ptr) else None
                if n is not None and self.subtype(e.ti, n): sel = self.tid(n); break
            if k == 'filter': raise Unsupported('filter clause')
        return (tok, sel)
    def tid(self, n):
        return self.exc_ids.setdefault(n, len(self.exc_ids) + 1)
    def subtype(self, a, b):
        while a is not None:
            if a == b: return True
            if a not in self.m.globals: return False
            t, init = self.m.global_info(a)
            a = init.els[2].n if isinstance(init, CAgg) and len(init.els) > 2 and isinstance(init.els[2], CGlob) else None
        return False

    # merging --------------------------------------------------------------
    def ipdom(self, f):
        if f.ipdom is not None: return f.ipdom
        succ = {}
        for b, ins in f.blocks.items():
            T = ins[-1]
            if T.op == 'br': s = [T.t] if T.a is None else [T.t, T.f]
            elif T.op == 'switch': s = [T.d] + [l for _, l in T.cases]
            elif T.op == 'invoke': s = [T.normal]
            elif T.op == 'ret': s = ['!exit']
            else: s = []
            succ[b] = s
        nodes = list(f.blocks) + ['!exit']
        # blocks that cannot reach exit (throwing / unreachable) are ignored for post-dominance
        full = set(nodes)
        pd = {n: full for n in nodes}; pd['!exit'] = {'!exit'}
        order = list(reversed(f.order)); ch = True
        live = {'!exit'}
        c2 = True
        while c2:
            c2 = False
            for b in f.blocks:
                if b not in live and any(x in live for x in succ[b]): live.add(b); c2 = True
        while ch:
            ch = False
            for b in order:
                ss = [pd[x] for x in succ[b] if x in live]
                if not ss: new = {b}
                else: new = set.intersection(*ss) | {b}
                if new != pd[b]: pd[b] = new; ch = True
        ip = {}
        for b in f.blocks:
            c = pd[b] - {b}
            best = None
            for x in c:
                if x in pd and len(pd[x] - {x}) == len(c) - 1: best = x
            ip[b] = best
        f.ipdom = ip
        return ip
    MAXMERGE = 6
    def merge(self, f, env, block, I, c, stop, st):
        return self.merge_n(f, env, block, [(c, I.t), (None, I.f)], stop, st)
    def merge_switch(self, f, env, block, I, v, stop, st):
        n = I.ty.a
        arms = {}
        order = []
        for cc, l in I.cases:
            if l not in arms: arms[l] = []; order.append(l)
            arms[l].append(v == z3.BitVecVal(cc.v, n))
        lst = [(z3.Or(*arms[l]) if len(arms[l]) > 1 else arms[l][0], l) for l in order if l != I.d] + [(None, I.d)]
        return self.merge_n(f, env, block, lst, stop, st)
    def merge_n(self, f, env, block, arms, stop, st):
        key = (f.name, block)
        if self.noimpure.get(key, 0) >= 3: 
            if self.pure: raise Impure()
            return None
        J = self.ipdom(f)[block]
        if J is None:
            if self.pure: raise Impure()
            return None
        if self.pure >= self.MAXMERGE: raise Impure()
        outs = []
        saved_steps = self.nsteps
        try:
            for c, l in arms:
                self.pure += 1
                e2 = dict(env); st2 = []
                try:
                    r = self.run(f, e2, l, block, J, st2)
                finally:
                    self.pure -= 1
                if J == '!exit':
                    if r[0] != 'ret': raise Impure()
                    outs.append((c, r[1])); rty = r[2]
                else:
                    if r[0] != 'stop': raise Impure()
                    vals = []
                    for P in f.blocks[J]:
                        if P.op != 'phi': break
                        vals.append(self.val(P.inc[r[1]], P.ty, e2))
                    outs.append((c, vals))
        except (Impure, Unsupported, Bad, Throw, ProgAbort, KeyError) as ex:
            self.noimpure[key] = self.noimpure.get(key, 0) + 1
            if self.pure: raise Impure()
            return None
        self.stats['merges'] += 1
        try:
            if J == '!exit':
                if outs[0][1] is None: res = ('ret', None, rty)
                else:
                    acc = outs[-1][1]
                    for c, v in reversed(outs[:-1]): acc = self.mergeval(c, v, acc, rty)
                    res = ('ret', acc, rty)
                self.noimpure[key] = -10**9
                return res
            phis = [P for P in f.blocks[J] if P.op == 'phi']
            res = list(outs[-1][1])
            for c, vals in reversed(outs[:-1]):
                res = [self.mergeval(c, v, r, P.ty) for v, r, P in zip(vals, res, phis)]
        except Unsupported:
            self.noimpure[key] = self.noimpure.get(key, 0) + 1
            if self.pure: raise Impure()
            return None
        self.noimpure[key] = -10**9
        for P, v in zip(phis, res): env[P.dst] = v
        return ('stop', J)
    def mergeval(self, c, a, b, t):
        t = self.m.resolve(t)
        if t.k == 'struct' and isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(self.mergeval(c, x, y, e) for x, y, e in zip(a, b, t.a))
        return ite(c, a, b, t.a if t.k == 'int' else None)

class PInt:
    """a pointer held as an integer"""
    def __init__(s, p): s.p = p
class ExcTok:
    def __init__(s, e): s.exc = e
