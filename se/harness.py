"""Harness definition, lowering, exploration, replay."""
import os, sys, subprocess, time, ctypes, json, random, struct, hashlib, signal, multiprocessing
import z3
from . import ir, externs, fmt as F
from .exec import *
from .fmt import FMT
from .apps import Reg
from . import apps
from . import mpfr as M

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOT = 16
CTY = {'f': 'float', 'd': 'double', 'l': 'long double', 'u8': 'unsigned char', 'i32': 'int', 'u32': 'unsigned int', 'i64': 'long', 'u64': 'unsigned long', 'b': 'bool'}
ISZ = {'u8': 8, 'i32': 32, 'u32': 32, 'i64': 64, 'u64': 64, 'b': 8}

PRELUDE = r'''
#include <utility>
#include <string>
#include <vector>
#include <cstring>
#include "p1788/p1788.hpp"
template<typename T> using F = p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<T>;
typedef p1788::decoration::decoration D;
#define I(T,k) (*(const T*)((const char*)in + 16*(k)))
#define O(T,k) (*(T*)((char*)out + 16*(k)))
template<typename T> using R = std::pair<T,T>;
template<typename T> using RD = std::pair<std::pair<T,T>,D>;
template<typename T> static inline R<T> IV(const void* in, int k) { return R<T>(I(T,k), I(T,k+1)); }
template<typename T> static inline RD<T> ID(const void* in, int k) { return RD<T>(R<T>(I(T,k), I(T,k+1)), (D)I(unsigned char,k+2)); }
template<typename T> static inline void OV(void* out, int k, R<T> const& r) { O(T,k) = r.first; O(T,k+1) = r.second; }
template<typename T> static inline void OD(void* out, int k, RD<T> const& r) { O(T,k) = r.first.first; O(T,k+1) = r.first.second; O(unsigned char,k+2) = (unsigned char)r.second; }
'''

class H:
    """one harness: C++ body `void h(const void* in, void* out)`, typed slots, precondition and specification"""
    def __init__(self, name, body, ins, outs, spec, pre=None, note='', opts=None, bound=None):
        self.name = name; self.body = body; self.ins = ins; self.outs = outs; self.spec = spec; self.pre = pre; self.note = note
        self.opts = opts or {}; self.bound = bound
        self.prelude = ''
    def sym(self):
        return 'h_' + self.name

def workdir():
    w = os.environ.get('VERIF_WORK')
    if not w:
        w = '/tmp/verif_work_%d' % os.getpid(); os.environ['VERIF_WORK'] = w
    os.makedirs(w, exist_ok=True); return w

def shim(w):
    d = os.path.join(w, 'gen', 'p1788'); os.makedirs(d, exist_ok=True)
    import re
    v = os.path.join(d, 'version.hpp')
    if not os.path.exists(v):
        t = open(os.path.join(REPO, 'p1788/version.hpp.in')).read()
        t = re.sub(r'@[A-Za-z_0-9]*@', '0', t)
        tmp = v + '.%d' % os.getpid(); open(tmp, 'w').write(t); os.rename(tmp, v)
    return os.path.join(w, 'gen')

def tu_text(hs):
    seen = []
    s = PRELUDE
    for h in hs:
        if h.prelude and h.prelude not in seen: seen.append(h.prelude); s += h.prelude
    for h in hs:
        s += 'extern "C" void %s(const void* in, void* out) {\n%s\n}\n' % (h.sym(), h.body)
    return s

def compile_ir(hs, tag, extra=()):
    w = workdir(); g = shim(w)
    src = os.path.join(w, tag + '.cpp'); ll = os.path.join(w, tag + '.ll')
    open(src, 'w').write(tu_text(hs))
    cmd = ['clang++', '-std=c++11', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-Wno-everything', '-DMPFR_USE_NO_MACRO',
           '-I' + REPO, '-I' + g] + list(extra) + ['-S', '-emit-llvm', src, '-o', ll]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise CompileError(r.stderr[-4000:])
    return open(ll).read()
class CompileError(Exception): pass

def compile_so(hs, tag, extra=()):
    w = workdir(); g = shim(w)
    src = os.path.join(w, tag + '_so.cpp'); so = os.path.join(w, tag + '.so')
    open(src, 'w').write(tu_text(hs))
    cmd = ['g++', '-std=c++11', '-O1', '-w', '-fPIC', '-shared', '-DVERIF_SO', '-I' + REPO, '-I' + g] + list(extra) + [src, '-o', so, '-lmpfr', '-lgmp']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise CompileError(r.stderr[-4000:])
    return so

# ---------------------------------------------------------------- memory replay: the real code under the address sanitizer, with allocation counters
MEMMAIN = r'''
#include <cstdio>
#include <cstdlib>
#include <new>
#include <gmp.h>
static long live;
void* operator new(size_t n) { ++live; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { ++live; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { if (p) --live; free(p); }
void operator delete[](void* p) noexcept { if (p) --live; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --live; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) --live; free(p); }
static void* ga(size_t n) { ++live; return malloc(n); }
static void* gr(void* p, size_t, size_t n) { return realloc(p, n); }
static void gf(void* p, size_t) { if (p) --live; free(p); }
alignas(16) static unsigned char in_[1 << 16], out_[1 << 16];
int main(int c, char** v) {
    mp_set_memory_functions(ga, gr, gf);
    for (int i = 1; i < c; ++i) in_[i - 1] = (unsigned char)atoi(v[i]);
    VERIF_H(in_, out_); VERIF_H(in_, out_);
    long a = live; VERIF_H(in_, out_); long b = live; VERIF_H(in_, out_); long d = live;
    printf("VERIF_LIVE %ld %ld\n", b - a, d - b); return 0;
}
'''
def memcheck(h, inb, extra=()):
    """-> None (clean or no verdict) or a description of the memory error / leak"""
    w = workdir(); g = shim(w); exe = os.path.join(w, 'mem_' + h.name)
    if not os.path.exists(exe):
        src = exe + '.cpp'; open(src, 'w').write(tu_text([h]) + '#define VERIF_H ' + h.sym() + '\n' + MEMMAIN)
        r = subprocess.run(['g++', '-std=c++11', '-O1', '-w', '-fsanitize=address', '-DVERIF_SO', '-I' + REPO, '-I' + g] + list(extra) + [src, '-o', exe, '-lmpfr', '-lgmp'], capture_output=True, text=True)
        if r.returncode: return None
    import resource
    un = lambda: resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    try: r = subprocess.run([exe] + [str(b) for b in inb], capture_output=True, text=True, timeout=60, preexec_fn=un, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=1:abort_on_error=0'))
    except subprocess.TimeoutExpired: return None
    import re
    m = re.search(r'ERROR: AddressSanitizer: (\S+)', r.stderr)
    if m: return 'memory error (%s)' % m.group(1)
    m = re.search(r'VERIF_LIVE (-?\d+) (-?\d+)', r.stdout)
    if m and int(m.group(1)) == int(m.group(2)) > 0: return 'memory leak (%s blocks per call)' % m.group(1)
    return None
# ---------------------------------------------------------------- native replay in a child process
class Native:
    def __init__(self, so): self.so = so; self.p = None
    def start(self):
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, 'se', 'native.py'), self.so], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    def run(self, fn, inb, nout):
        """-> bytes or ('crash', info)"""
        for attempt in (0, 1):
            if self.p is None or self.p.poll() is not None: self.start()
            try:
                self.p.stdin.write((json.dumps([fn, inb.hex(), nout]) + '\n').encode()); self.p.stdin.flush()
                l = self.p.stdout.readline()
            except BrokenPipeError: l = b''
            if l:
                d = json.loads(l); return bytes.fromhex(d)
            rc = self.p.wait(); self.p = None
            if rc == -14: return None          # too slow: no verdict
            if rc == 3 and attempt == 0: continue
            return ('crash', rc)
        return ('crash', -1)
    def close(self):
        if self.p and self.p.poll() is None:
            self.p.stdin.close(); 
            try: self.p.wait(2)
            except Exception: self.p.kill()

def enc_slot(v, k):
    if k in FMT:
        b = v.to_bytes(10 if k == 'l' else FMT[k].bits // 8, 'little')
    else: b = (v & mask(ISZ[k])).to_bytes(ISZ[k] // 8, 'little')
    return b + bytes(SLOT - len(b))
def dec_slot(b, k):
    if k in FMT: return int.from_bytes(b[:10 if k == 'l' else FMT[k].bits // 8], 'little')
    return int.from_bytes(b[:ISZ[k] // 8], 'little')
def term_of(v, k):
    if k in FMT: return F.bits_to_z3(v, k)
    if k == 'b': return z3.BitVecVal(v & 255, 8)
    return z3.BitVecVal(v, ISZ[k])
def show(v, k):
    if k in FMT:
        n = F.from_bits(v, k)
        if n[0] == 'nan': return 'nan'
        if n[0] == 'inf': return '-inf' if n[1] else 'inf'
        if n[0] == 'zero': return '-0' if n[1] else '0'
        if k == 'l': return ('-' if n[1] else '') + '0x%xp%d' % (n[2], n[3])
        return float(F.frac(n)).hex() + '(%r)' % float(F.frac(n))
    n = ISZ[k]
    return str(s64(v, n) if k[0] == 'i' else v)

EXTERNS = None
SUMMARY = None
class Run:
    """verify one harness"""
    def __init__(self, h, module, native_factory, budget=120, qtimeout=30000, thorough=False, log=None):
        self.h = h; self.m = module; self.nf = native_factory; self.budget = budget; self.qt = qtimeout; self.thorough = thorough
        self.log = log or (lambda *a: None)
        self.und = []; self.viol = None; self.proved = 0; self.known = 0
        self.reach = 0; self.witness = 0; self.probes = 0; self.q = 0; self.qs = 0.0
        self.memq = 0; self.replays = 0; self.conc_cache = {}; self.xt = 40000 if not thorough else 200000

    def mkins(self):
        out = []
        for nm, k in self.h.ins:
            if k in FMT: out.append(z3.FP('in_' + nm, FMT[k].sort))
            else: out.append(z3.BitVec('in_' + nm, ISZ[k]))
        return out

    def body(self, e):
        reg = e.reg; reg.reset_used(); reg.reset_wids()
        ino = e.alloc(SLOT * max(1, len(self.h.ins)), 'in', 'arg'); outo = e.alloc(SLOT * max(1, len(self.h.outs)), 'out', 'arg')
        for i, ((nm, k), t) in enumerate(zip(self.h.ins, self.inv)):
            sz = e.m.size({'f': ir.F32, 'd': ir.F64, 'l': ir.F80}.get(k, ir.IntTy(ISZ.get(k, 8))))
            ino.cells[SLOT * i] = (sz, t)
        for c in self.pre: e.assume(c)
        setup = self.h.opts.get('setup')
        if setup: setup(e)
        exc = None
        try:
            e.call(self.h.sym(), [Ptr(ino, 0), Ptr(outo, 0)])
        except Throw as t:
            exc = t
        self.used_n = dict(reg.used)
        outs = []
        for i, (nm, k) in enumerate(self.h.outs):
            t = {'f': ir.F32, 'd': ir.F64, 'l': ir.F80}.get(k, ir.IntTy(ISZ.get(k, 8)))
            v = None if exc else e.load(Ptr(outo, SLOT * i), t)
            if v is UNDEF or v is None: v = None
            elif isinstance(v, bool): v = z3.BitVecVal(int(v), ISZ[k])
            elif isinstance(v, int): v = z3.BitVecVal(v, ISZ[k])
            elif z3.is_bool(v): v = bv(v, ISZ[k])
            outs.append(v)
        return outs, exc

    def helper(self, hh):
        """prove the contract of an internal helper once per run; a helper that does not meet it is simply not summarised"""
        if self.m.func(hh.sym()) is None: return ['absent', None]
        import fcntl
        p = os.path.join(workdir(), 'helper_' + hh.name)
        with open(p + '.lock', 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if os.path.exists(p): return json.load(open(p))
            r = Run(hh, self.m, self.nf, budget=hh.opts.get('budget', 100), qtimeout=self.qt, thorough=self.thorough, log=self.log).go()
            st = ['proved' if r['status'] == 'proved' else 'open', self_viol_raw(r)]
            json.dump(st, open(p, 'w')); return st
    def go(self):
        h = self.h
        global EXTERNS
        if EXTERNS is None: EXTERNS = externs.mk()
        t0 = time.time()
        ext = dict(EXTERNS)
        if h.opts.get('streams'):
            from . import streams as SR
            ext.update(SR.install()); ext.update(SR.rx_externs(self.m))
        ext.update(h.opts.get('externs', {}))
        self.summ = []
        if h.opts.get('two_sum'):
            from . import summary as SM
            for k in FMT:
                sy = SM.demap(self.m).get('std::pair<{0}, {0}> p1788::util::two_sum<{0}>({0} const&, {0} const&)'.format(FMT[k].c))
                if sy: ext[sy] = SM.two_sum(k, sy); self.summ.append(sy)
        for s in h.opts.get('summaries', []):
            from . import summary as SM
            fn, t, a, g = SUMMARY(*s)
            sy = SM.symbol(self.m, fn, t, a)
            if sy: g.name = sy; g.guard = h.opts.get('sumguard') and h.opts['sumguard'](s); ext[sy] = g; self.summ.append(sy)
        tries = []
        for hh, install in h.opts.get('helpers', []):
            st, raw = self.helper(hh)
            if st == 'proved': install(self.m, ext, self.summ)
            elif raw: tries += h.opts['from_helper'](hh, raw)
        t0 = time.time()
        e = Engine(self.m, ext, timeout_ms=10000)
        e.reg = Reg(); self.reg = e.reg; self.e = e; e.runner = self; e.reg.engine = e; apps.CUR[0] = e.reg
        e.deadline = t0 + self.budget; e.ptr_order = bool(h.opts.get('streams'))
        self.inv = self.mkins()
        if h.opts.get('lattice'): e.reg.lattice = [t for t in self.inv if z3.is_fp(t)]
        self.pre = list(h.pre(e.reg, self.inv)) if h.pre else []
        try:
            for vals in tries: self.tryvals(vals)
            e.explore(self.body, self.on_path, max_paths=h.opts.get('max_paths', 6000))
        except StopRun: pass
        except Unsupported as ex:
            self.und.append('exploration: %s' % ex)
        self.time = time.time() - t0
        masked = self.viol['raw'] if self.viol and h.opts.get('contract') else None
        if self.viol and h.opts.get('contract'): self.und.append('contract does not hold: callers are checked without it'); self.viol = None
        st = 'violation' if self.viol else ('undecided' if self.und else 'proved')
        if st == 'proved' and self.reach == 0: st = 'undecided'; self.und.append('no reachable path')
        return dict(name=h.name, status=st, paths=e.stats['paths'], infeasible=e.stats['infeasible'], merges=e.stats['merges'], forks=e.stats['forks'], steps=e.stats['steps'],
                    queries=e.stats['queries'] + self.q, solver_s=round(e.stats['solver_s'] + self.qs, 3), time_s=round(self.time, 2), undecided=self.und[:5], nund=len(self.und),
                    violation=self.viol, functions=sorted(e.funcs_seen), bound=h.bound, note=h.note, apps=len(e.reg.apps), replays=self.replays, reach=self.reach, witness=self.witness, masked=masked)

    def solve(self, cs, timeout=None):
        t = time.time()
        s = z3.SolverFor('QF_FP') if True else z3.Solver()
        s.set('timeout', timeout or self.qt)
        s.add(*cs)
        r = s.check()
        self.q += 1; self.qs += time.time() - t
        return r, s

    def on_path(self, e, res, err):
        if err is not None:
            if isinstance(err, Unsupported):
                if self.solve(e.pc + e.reg.facts())[0] == z3.unsat: return
                self.und.append('path: %s' % err); self.probe(e, 'not encodable: %s' % err); return
            # definite error of the code (memory, double free, abort)
            r, s = self.solve(e.pc + e.reg.facts())
            if r == z3.unsat: return
            if r == z3.sat:
                self.candidate(s.model(), 'error: %s' % getattr(err, 'why', err), e, None); return
            self.und.append('error path: %s' % err); return
        outs, exc = res
        if M.st(e).vars and not exc and not self.h.opts.get('noleak'):
            self.bad_path(e, 'mpfr variable leaked'); return
        if exc is not None and not self.h.opts.get('throws'):
            self.bad_path(e, 'unexpected exception %s' % exc.ti); return
        if e.side.get('gmp') and not exc and not self.h.opts.get('noleak'):
            self.bad_path(e, 'GMP variable leaked'); return
        live = [o for o in e.heap.values() if o.alive]
        if live and not self.h.opts.get('noleak'):
            self.bad_path(e, 'heap memory leaked'); return
        if any(o is None for o in outs) and not exc and not self.h.opts.get('anyout'):
            self.bad_path(e, 'output not set'); return
        post = self.h.spec(e.reg, self.inv, outs) if exc is None else self.h.opts['throws'](e.reg, self.inv, exc)
        tot = dict(e.reg.used)
        goal = z3.And(*[p for _, p in post])
        exact_done = False
        for it in range(12 if not self.thorough else 30):
            facts = e.reg.facts()
            if time.time() > e.deadline: self.und.append('time budget'); return
            r, s = self.solve(e.pc + facts + [z3.Not(goal)])
            if r == z3.unsat:
                self.proved += 1
                if self.reach < (3 if not self.thorough else 40):
                    rr, s2 = self.solve(e.pc + facts)
                    if rr == z3.sat:
                        self.reach += 1
                        if self.witness < (2 if not self.thorough else 40): self.validate(s2.model(), outs)
                return
            if r != z3.sat:
                self.und.append('solver %s (%s)' % (r, s.reason_unknown())); self.probe(e, 'undecided path'); return
            m = s.model()
            if os.environ.get('VERIF_DBG'):
                print(self.h.name, 'it', it, [(n, show(v, k)) for v, (n, k) in zip(self.modelins(m), self.h.ins)], [(a.fn, [str(m.eval(x)) if not isinstance(x, int) else x for x in a.args], {q: str(m.eval(t)) for q, t in a.res.items()}, {q: str(m.eval(t)) for q, t in a.wide.items()}) for a in e.reg.used.values()], flush=True)
            labels = [l for l, p in post if z3.is_false(m.eval(p, model_completion=True))]
            if self.candidate(m, ','.join(labels), e, goal): return
            if not e.reg.defs_on and e.reg.opq_used:
                e.reg.defs_on = True; continue
            stuck = not self.refine(m, e)
            if stuck and (exact_done or not e.reg.exact()):
                self.und.append('spurious counterexample not refinable: %s' % ','.join(labels)); self.probe(e, ','.join(labels)); return
            # after a few abstract refinements look for a model of the exact arithmetic
            if (stuck or it >= (3 if not e.reg.opq_used else 4)) and not exact_done:
                exact_done = True
                ex = e.reg.exact()
                if ex:
                    r, s = self.solve(e.pc + e.reg.facts() + ex + [z3.Not(goal)], timeout=self.xt)
                    if r == z3.unsat and e.reg.all_exact(): self.proved += 1; return
                    if r == z3.sat and self.candidate(s.model(), ','.join(labels), e, goal): return
        self.und.append('refinement limit: %s' % ','.join(labels)); self.probe(e, ','.join(labels))

    def validate(self, m, outs):
        """run the real code on a model of a proved path: its result must satisfy the specification too"""
        vals = self.modelins(m)
        r = self.native(vals)
        self.witness += 1
        if r is None: return
        if isinstance(r, tuple): self.report(vals, None, 'crash (%s) on a path believed proved' % r[1])
        ok, bad = self.concrete_ok(vals, r)
        if ok is False: self.report(vals, r, ','.join(bad))
    def native(self, vals):
        inb = b''.join(enc_slot(v, k) for v, (n, k) in zip(vals, self.h.ins)) or bytes(SLOT)
        return self.nf().run(self.h.sym(), inb, SLOT * max(1, len(self.h.outs)))
    def probe(self, e, why):
        """a path that could not be decided: replay solver models of its path condition against the real code"""
        if self.probes >= (6 if not self.thorough else 40) or self.h.opts.get('noprobe'): return
        self.probes += 1
        rnd = random.Random(self.probes)
        cs = e.pc + e.reg.facts()
        t0 = time.time()
        for j in range(8):
            if time.time() - t0 > 0.15 * self.budget: return
            ex = []
            if j:
                for (n, k), t in zip(self.h.ins, self.inv):
                    if k not in FMT: continue
                    f = FMT[k]; c = rnd.randrange(6); a = rnd.choice([0.5, 1.0, 2.0, 3.0, 10.0, 100.0, 1e10])
                    if c == 0: ex.append(z3.And(z3.fpGT(z3.fpAbs(t), z3.FPVal(a, f.sort)), z3.Not(z3.fpIsInf(t))))
                    elif c == 1: ex.append(z3.And(z3.fpLT(z3.fpAbs(t), z3.FPVal(a, f.sort)), z3.Not(z3.fpIsZero(t))))
                    elif c == 2: ex.append(z3.fpIsNegative(t))
                    elif c == 3: ex.append(z3.fpIsSubnormal(t))
                    elif c == 4: ex.append(z3.fpIsPositive(t))
            r, s = self.solve(cs + ex, timeout=5000)
            if r == z3.sat: self.candidate(s.model(), why, e, None)
    def bad_path(self, e, why):
        r, s = self.solve(e.pc + e.reg.facts())
        if r == z3.unsat: return
        if r == z3.sat and self.candidate(s.model(), why, e, None): return
        self.und.append(why)

    def modelins(self, m):
        vals = []
        for (nm, k), t in zip(self.h.ins, self.inv):
            v = m.eval(t, model_completion=True)
            if k in FMT:
                v = z3.simplify(v)
                vals.append(F.z3_to_bits(v))
            else: vals.append(v.as_long())
        return vals

    def refine(self, m, e):
        """evaluate every uninterpreted application at the model's arguments and add the true values as facts"""
        new = False
        for a in list(e.reg.used.values()):
            if a.fn in ('custom',): continue
            args = []
            for x in a.args:
                if isinstance(x, int): args.append(x)
                else:
                    v = z3.simplify(m.eval(x, model_completion=True))
                    args.append(v if z3.is_fp(v) else s64(v.as_long(), v.size()))
            if any(z3.is_fp(x) and x.isNaN() for x in args if not isinstance(x, int)): continue
            key = (a.fn, a.f.n)
            pts = e.reg.points.setdefault(key, [])
            sk = tuple(x if isinstance(x, int) else str(x) for x in args)
            if any(tuple(str(y) for y in p) == sk for p in pts): continue
            try:
                tv = {r: e.reg.R(a.fn, r, a.f, args) for r in a.res}
            except Exception as ex:
                continue
            # only if the model disagrees
            dis = False
            for r, v in tv.items():
                mv = z3.simplify(m.eval(a.res[r], model_completion=True))
                if not mv.eq(v) and not (mv.isNaN() and v.isNaN()) and not (mv.isZero() and v.isZero()): dis = True
            if dis:
                pts.append(tuple(args)); new = True; e.reg.factcache.clear()
        return new

    def concrete_ok(self, vals, outb):
        """specification evaluated on concrete inputs/outputs; (ok, failed labels)"""
        reg = Reg(); sv = apps.CUR[0]; apps.CUR[0] = None
        try: return self.concrete_ok1(reg, vals, outb)
        finally: apps.CUR[0] = sv
    def concrete_ok1(self, reg, vals, outb):
        ins = [term_of(v, k) for v, (n, k) in zip(vals, self.h.ins)]
        if self.h.pre:
            for c in self.h.pre(reg, ins):
                c = conc(c)
                if c is False: return None, []
                if c is not True: return None, ['pre not constant']
        outs = [term_of(dec_slot(outb[SLOT * i:SLOT * i + SLOT], k), k) for i, (n, k) in enumerate(self.h.outs)]
        bad = []
        for l, p in self.h.spec(reg, ins, outs):
            c = conc(p)
            if c is True: continue
            if c is False: bad.append(l)
            else: return None, ['spec not constant: %s' % str(c)[:200]]
        return not bad, bad

    def variants(self, vals):
        rnd = random.Random(12345)
        yield vals
        fps = [i for i, (n, k) in enumerate(self.h.ins) if k in FMT]
        n = 60 if not self.thorough else 200
        vary = self.h.opts.get('vary')
        for j in range(n):
            if vary: yield vary(list(vals), rnd)
            v = list(vals)
            for i in fps:
                k = self.h.ins[i][1]; f = FMT[k]; mb = f.p - 1 if k != 'l' else 63
                num = F.from_bits(v[i], k)
                if num[0] != 'num':
                    continue
                c = rnd.random()
                if j < 6: c = c * 0.4 if rnd.random() < 0.5 else 1.0
                if c < 0.35: v[i] ^= rnd.getrandbits(mb) if k != 'l' else rnd.getrandbits(63)
                elif c < 0.6: v[i] ^= rnd.getrandbits(max(4, mb // 2))
                elif c < 0.7: v[i] ^= rnd.getrandbits(3)
                elif c < 0.8 and k != 'l':
                    e = rnd.choice([1, -1, 2, -2, 5, -5]); w = v[i] + (e << mb)
                    if 0 <= w < (1 << f.bits) and F.from_bits(w, k)[0] == 'num': v[i] = w ^ rnd.getrandbits(mb)
            yield v

    def tryvals(self, vals):
        """a counterexample to the contract of an internal helper, seen from the operation that uses it"""
        for v in self.variants(vals):
            r = self.native(v); self.replays += 1
            if r is None: return
            if isinstance(r, tuple): self.report(v, None, 'crash (%s)' % r[1])
            ok, bad = self.concrete_ok(v, r)
            if ok is False: self.report(v, r, ','.join(bad))
    def candidate(self, m, labels, e, goal):
        """try to reproduce against the real code; True if a violation was reported"""
        vals0 = self.modelins(m)
        nat = self.nf()
        mem = goal is None
        for vals in self.variants(vals0):
            inb = b''.join(enc_slot(v, k) for v, (n, k) in zip(vals, self.h.ins)) or bytes(SLOT)
            r = nat.run(self.h.sym(), inb, SLOT * max(1, len(self.h.outs)))
            self.replays += 1
            if r is None: return False
            if isinstance(r, tuple):
                self.report(vals, None, 'crash (%s) [%s]' % (r[1], labels)); return True
            if mem and self.memq < 6 and ('leaked' in labels or labels.startswith('error')):
                self.memq += 1
                why = memcheck(self.h, inb, self.h.opts.get('cflags', ()))
                if why: self.report(vals, r, '%s [%s]' % (why, labels)); return True
            ok, bad = self.concrete_ok(vals, r)
            if ok is None:
                if bad and not self.__dict__.get('_lg'): self._lg = 1; self.log('concrete spec', self.h.name, str(bad)[:300])
                if vals is vals0 and not mem: pass
                continue
            if not ok:
                self.report(vals, r, ','.join(bad)); return True
        return False

    def report(self, vals, outb, labels):
        ins = {n: show(v, k) for v, (n, k) in zip(vals, self.h.ins)}
        outs = None if outb is None else {n: show(dec_slot(outb[SLOT * i:SLOT * i + SLOT], k), k) for i, (n, k) in enumerate(self.h.outs)}
        self.viol = dict(harness=self.h.name, failed=labels, inputs=ins, outputs=outs, raw=[hex(v) for v in vals], symbol=self.h.sym())
        raise StopRun()
class StopRun(Exception): pass
def self_viol_raw(r): return [int(x, 16) for x in r['masked']] if r.get('masked') else None
