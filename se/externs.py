"""Models of compiler intrinsics, allocation, exceptions."""
import z3
from .exec import *
from . import mpfr as M, exec as X

def mk():
    ext = M.mk()
    def reg(*names):
        def d(f):
            for n in names: ext[n] = f
            return f
        return d
    def nop(e, a): return None
    def fabs(e, a): return z3.simplify(z3.fpAbs(a[0]))
    def rti(rm): return lambda e, a: z3.fpRoundToIntegral(rm, a[0])
    for s in ('f32', 'f64', 'f80'):
        ext['llvm.fabs.' + s] = fabs
        ext['llvm.floor.' + s] = rti(z3.RTN()); ext['llvm.ceil.' + s] = rti(z3.RTP()); ext['llvm.trunc.' + s] = rti(z3.RTZ())
        ext['llvm.round.' + s] = rti(z3.RNA()); ext['llvm.rint.' + s] = ext['llvm.nearbyint.' + s] = lambda e, a: z3.fpRoundToIntegral(X.ZRMS[e.rm], a[0]); ext['llvm.roundeven.' + s] = rti(RNE)
        def cs(e, a): return z3.If(z3.fpIsNegative(a[1]), z3.fpNeg(z3.fpAbs(a[0])), z3.fpAbs(a[0]))
        ext['llvm.copysign.' + s] = cs
        def mn(e, a): return z3.If(z3.fpIsNaN(a[0]), a[1], z3.If(z3.fpIsNaN(a[1]), a[0], z3.If(z3.fpLT(a[0], a[1]), a[0], a[1])))
        def mx(e, a): return z3.If(z3.fpIsNaN(a[0]), a[1], z3.If(z3.fpIsNaN(a[1]), a[0], z3.If(z3.fpGT(a[0], a[1]), a[0], a[1])))
        ext['llvm.minnum.' + s] = mn; ext['llvm.maxnum.' + s] = mx
        def sq(e, a): return z3.fpSqrt(RNE, a[0])
        ext['llvm.sqrt.' + s] = sq
        def isclass(e, a):
            x, k = a; cs = []
            n = z3.fpIsNegative(x)
            T = [z3.fpIsNaN(x), z3.fpIsNaN(x), z3.And(z3.fpIsInf(x), n), z3.And(z3.fpIsNormal(x), n), z3.And(z3.fpIsSubnormal(x), n), z3.And(z3.fpIsZero(x), n),
                 z3.And(z3.fpIsZero(x), z3.Not(n)), z3.And(z3.fpIsSubnormal(x), z3.Not(n)), z3.And(z3.fpIsNormal(x), z3.Not(n)), z3.And(z3.fpIsInf(x), z3.Not(n))]
            if k & 3 in (1, 2): raise Unsupported('signalling NaN class')
            return conc(z3.Or(*[t for i, t in enumerate(T) if k >> i & 1]))
        ext['llvm.is.fpclass.' + s] = isclass
    for n in (8, 16, 32, 64):
        def mk_(p, n=n):
            def g(e, a):
                c = e.icmp(p, a[0], a[1], n); return ite(c, a[0], a[1], n)
            return g
        ext['llvm.umin.i%d' % n] = mk_('ult'); ext['llvm.umax.i%d' % n] = mk_('ugt'); ext['llvm.smin.i%d' % n] = mk_('slt'); ext['llvm.smax.i%d' % n] = mk_('sgt')
        def ab(e, a, n=n):
            if isinstance(a[0], int): return abs(s64(a[0], n)) & mask(n)
            return z3.If(a[0] < 0, -a[0], a[0])
        ext['llvm.abs.i%d' % n] = ab
        def ctpop(e, a, n=n):
            if isinstance(a[0], int): return bin(a[0]).count('1')
            raise Unsupported('ctpop')
        ext['llvm.ctpop.i%d' % n] = ctpop
        def usubsat(e, a, n=n):
            return ite(e.icmp('ult', a[0], a[1], n), 0, e.binop('sub', a[0], a[1], n), n)
        ext['llvm.usub.sat.i%d' % n] = usubsat
        def fsh(e, a, n=n, right=False):
            x, y, s = a
            if not isinstance(s, int): raise Unsupported('funnel shift by a symbolic amount')
            s %= n
            if right: s = (n - s) % n if s else 0
            if right and not (a[2] % n): return y
            if isinstance(x, int) and isinstance(y, int): return ((x << s) | (y >> (n - s) if s else 0)) & mask(n)
            if s == 0: return x
            return z3.simplify(z3.Concat(z3.Extract(n - 1 - s, 0, bv(x, n)), z3.Extract(n - 1, n - s, bv(y, n))))
        ext['llvm.fshl.i%d' % n] = fsh
        ext['llvm.fshr.i%d' % n] = lambda e, a, n=n, fsh=fsh: fsh(e, a, n, True)
        for nm, f in (('umul', lambda x, y: x * y), ('uadd', lambda x, y: x + y)):
            def ov(e, a, n=n, f=f):
                if not all(isinstance(v, int) for v in a): raise Unsupported('overflow intrinsic')
                r = f(a[0], a[1]); return (r & mask(n), r > mask(n))
            ext['llvm.%s.with.overflow.i%d' % (nm, n)] = ov
    for n in ('llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.dbg.value', 'llvm.dbg.declare', 'llvm.experimental.noalias.scope.decl', 'llvm.assume',
              'llvm.invariant.start.p0', '__cxa_atexit'): ext[n] = nop
    ext['llvm.expect.i1'] = lambda e, a: a[0]
    ext['llvm.expect.i64'] = lambda e, a: a[0]
    ext['llvm.is.constant.i64'] = lambda e, a: False
    ext['llvm.objectsize.i64.p0'] = lambda e, a: mask(64)
    ext['llvm.eh.typeid.for'] = ext['llvm.eh.typeid.for.p0'] = lambda e, a: e.tid(a[0].o.name[1:] if isinstance(a[0], Ptr) else None)
    def trap(e, a): raise ProgAbort('trap')
    for n in ('llvm.trap', 'abort', '_ZSt9terminatev', '__clang_call_terminate', '__assert_fail', '__cxa_pure_virtual'): ext[n] = trap
    def memcpy(e, a):
        n = a[2]
        if not isinstance(n, int):
            n = concbv(n)
            if not isinstance(n, int): raise Unsupported('symbolic memcpy size')
        e.memcpy(a[0], a[1], n)
    for n in ('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'llvm.memcpy.inline.p0.p0.i64'): ext[n] = memcpy
    ext['memcpy'] = ext['memmove'] = lambda e, a: (memcpy(e, a), a[0])[1]
    def memset(e, a):
        p, v, n = a[0], a[1], a[2]
        if not isinstance(n, int) or not isinstance(v, int): raise Unsupported('symbolic memset')
        if n == 0: return a[0]
        p = e.concretize_ptr(p, 0)
        e._chk(p, n, 'memset')
        if e.pure and p.o.birth < e.pure: raise Impure()
        e.clear(p.o, p.f, n)
        if v == 0 and n % 8 == 0:
            for i in range(0, n, 8): p.o.cells[p.f + i] = (8, 0)
        else:
            for i in range(n): p.o.cells[p.f + i] = (1, v)
        return a[0]
    ext['llvm.memset.p0.i64'] = memset; ext['memset'] = memset
    for n in ('nearbyint', 'rint'):
        for c, sf in (('', ''), ('f', 'f'), ('l', 'l')): ext[n + sf] = ext['llvm.nearbyint.f64']
    FE = {'N': 0, 'D': 0x400, 'U': 0x800, 'Z': 0xc00}
    def fegetround(e, a):
        if e.pure: raise Impure()
        return FE[e.rm]
    def fesetround(e, a):
        if e.pure: raise Impure()
        v = concbv(a[0])
        if not isinstance(v, int): v = e.choose([(k, v == z3.BitVecVal(k, 32)) for k in FE.values()] )
        for r, k in FE.items():
            if k == v: e.rm = r; return 0
        return 1
    ext['fegetround'] = fegetround; ext['fesetround'] = fesetround
    # heap
    def new(kind):
        def g(e, a):
            n = a[0]
            if not isinstance(n, int): raise Unsupported('symbolic allocation size')
            if n > (1 << 32): raise Unsupported('huge allocation')
            o = e.alloc(n, 'heap', 'heap'); o.meta = kind
            if not e.pure: e.heap[id(o)] = o
            return Ptr(o, 0)
        return g
    ext['_Znwm'] = new('new'); ext['_Znam'] = new('new[]'); ext['malloc'] = new('malloc')
    def dele(kind):
        def g(e, a):
            p = a[0]
            if isinstance(p, Null): return None
            if e.pure: raise Impure()
            if not isinstance(p, Ptr): raise Unsupported('delete')
            if p.o.kind != 'heap' or p.f != 0: raise Bad('delete of a non-heap pointer')
            if not p.o.alive: raise Bad('double free')
            if p.o.meta != kind: raise Bad('mismatched delete: %s of %s' % (kind, p.o.meta))
            p.o.alive = False; e.heap.pop(id(p.o), None)
        return g
    ext['_ZdlPv'] = ext['_ZdlPvm'] = dele('new'); ext['_ZdaPv'] = ext['_ZdaPvm'] = dele('new[]'); ext['free'] = dele('malloc')
    # exceptions
    def calloc_exc(e, a):
        if e.pure: raise Impure()
        o = e.alloc(a[0], 'exception', 'exc'); return Ptr(o, 0)
    ext['__cxa_allocate_exception'] = calloc_exc
    ext['__cxa_free_exception'] = nop
    def throw(e, a):
        if e.pure: raise Impure()
        ti = a[1]
        raise Throw(a[0], ti.o.name[1:] if isinstance(ti, Ptr) else ti.n if isinstance(ti, FnPtr) else '?')
    ext['__cxa_throw'] = throw
    def begin(e, a):
        if e.pure: raise Impure()
        e.events.append(('catch', a[0].exc.ti)); e.cur_exc = a[0].exc
        return a[0].exc.ptr
    ext['__cxa_begin_catch'] = begin
    ext['__cxa_end_catch'] = nop
    def rethrow(e, a): raise e.cur_exc
    ext['__cxa_rethrow'] = rethrow
    ext['__cxa_guard_acquire'] = lambda e, a: guard(e, a)
    def guard(e, a):
        if e.pure: raise Impure()
        p = a[0]
        v = e.load(p, X.ir.IntTy(8))
        return 0 if v not in (0, False) else 1
    def guardrel(e, a): e.store(a[0], 1, X.ir.IntTy(8))
    ext['__cxa_guard_release'] = guardrel
    def libthrow(kind):
        def g(e, a):
            if e.pure: raise Impure()
            o = e.alloc(16, 'exception', 'exc'); raise Throw(Ptr(o, 0), kind)
        return g
    ext['_ZSt20__throw_length_errorPKc'] = libthrow('_ZTISt12length_error')
    ext['_ZSt17__throw_bad_allocv'] = libthrow('_ZTISt9bad_alloc')
    ext['_ZSt28__throw_bad_array_new_lengthv'] = libthrow('_ZTISt9bad_alloc')
    ext['_ZSt19__throw_logic_errorPKc'] = libthrow('_ZTISt11logic_error')
    ext['_ZSt20__throw_out_of_rangePKc'] = libthrow('_ZTISt12out_of_range')
    ext['_ZSt24__throw_out_of_range_fmtPKcz'] = libthrow('_ZTISt12out_of_range')
    # exception objects: the message is irrelevant; its std::string temporaries are heap objects like any other
    STR = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
    def s_create(e, a):
        if e.pure: raise Impure()
        n = e.load(a[1], X.ir.IntTy(64))
        if not isinstance(n, int): raise Unsupported('symbolic string capacity')
        if n > (1 << 30): raise Throw(Ptr(e.alloc(16, 'exception', 'exc'), 0), '_ZTISt12length_error')
        o = e.alloc(n + 1, 'string', 'heap'); o.meta = 'new'; e.heap[id(o)] = o
        return Ptr(o, 0)
    ext[STR + '9_M_createERmm'] = s_create
    for n in ('_ZNSt13runtime_errorC2ERK' + STR[2:] + 'E', '_ZNSt13runtime_errorC1ERK' + STR[2:] + 'E', '_ZNSt13runtime_errorD2Ev', '_ZNSt13runtime_errorD1Ev', '_ZNSt13runtime_errorC2EPKc', '_ZNSt13runtime_errorC1EPKc'):
        ext[n] = nop
    def strlen(e, a):
        n = 0; p = a[0]
        while True:
            b = e.load(Ptr(p.o, p.f + n), X.ir.IntTy(8))
            if not isinstance(b, int): raise Unsupported('symbolic strlen')
            if b == 0: return n
            n += 1
    def s_ctor(e, a):
        # basic_string(const char*, allocator)
        if e.pure: raise Impure()
        n = 0
        while e.load(Ptr(a[1].o, a[1].f + n), X.ir.IntTy(8)) != 0: n += 1
        p = a[0]
        if n > 15:
            o = e.alloc(n + 1, 'string', 'heap'); o.meta = 'new'; e.heap[id(o)] = o; d = Ptr(o, 0); e.store(Ptr(p.o, p.f + 16), n, X.ir.IntTy(64))
        else: d = Ptr(p.o, p.f + 16)
        e.store(p, d, X.ir.PTR); e.store(Ptr(p.o, p.f + 8), n, X.ir.IntTy(64))
        for i in range(n): e.store(Ptr(d.o, d.f + i), e.load(Ptr(a[1].o, a[1].f + i), X.ir.IntTy(8)), X.ir.IntTy(8))
        e.store(Ptr(d.o, d.f + n), 0, X.ir.IntTy(8))
    ext[STR + 'C2EPKcRKS3_'] = ext[STR + 'C1EPKcRKS3_'] = s_ctor
    def s_dtor(e, a):
        d = e.load(a[0], X.ir.PTR)
        if not isinstance(d, Ptr):
            if e.pure: raise Impure()
            raise Bad('destruction of a string that was not constructed') if d is UNDEF else Unsupported('string data pointer')
        if d.o is not a[0].o: ext['_ZdlPv'](e, [d])
    ext[STR + 'D2Ev'] = ext[STR + 'D1Ev'] = s_dtor
    ext['strlen'] = strlen
    return ext
