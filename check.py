#!/usr/bin/env python3-vt
"""check.py <property>: decide one property by symbolic execution of the real code and SMT solving.  See DESIGN.md."""
import sys, os, time, json, hashlib, shutil, tempfile, multiprocessing as mp, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
T0 = time.time()

def mem_cap():
    import resource
    g = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (g, resource.RLIM_INFINITY))

def compile_group(a):
    hs, tag = a
    from se import harness as HH
    try: return HH.compile_ir(hs, tag, hs[0].opts.get('cflags', ())), None
    except HH.CompileError as ex: return None, str(ex)

MODS = {}
GROUPS = []
def worker(qin, qout, tier, log):
    import z3
    from se import ir, harness as HH
    mem_cap()
    z3.set_param('sat.random_seed', SEED); z3.set_param('smt.random_seed', SEED)
    while True:
        job = qin.get()
        if job is None: return
        gi, hi = job
        hs, irtext, tag = GROUPS[gi]
        h = hs[hi]
        try:
            if gi not in MODS:
                MODS.clear(); MODS[gi] = ir.Module(irtext)
            nat = []
            def nf():
                if not nat:
                    import fcntl
                    so = os.path.join(HH.workdir(), tag + '.so')
                    with open(so + '.lock', 'w') as lk:
                        fcntl.flock(lk, fcntl.LOCK_EX)
                        if not os.path.exists(so + '.ok'):
                            HH.compile_so(hs, tag, [f for f in hs[0].opts.get('cflags', ()) if 'access' in f]); open(so + '.ok', 'w').close()
                    nat.append(HH.Native(so))
                return nat[0]
            qout.put(('start', gi, hi, None))
            r = HH.Run(h, MODS[gi], nf, budget=h.opts.get('budget', 60) * (6 if tier == 'thorough' else 1), thorough=tier == 'thorough', qtimeout=30000 if tier == 'quick' else 240000, log=log).go()
            if nat: nat[0].close()
        except BaseException as ex:
            r = dict(name=h.name, status='undecided', undecided=['internal: %s' % ''.join(traceback.format_exception_only(type(ex), ex))[-400:] + traceback.format_exc()[-6000:]], nund=1, paths=0, queries=0, solver_s=0, time_s=0, functions=[], violation=None, replays=0, reach=0)
        qout.put(('done', gi, hi, r))

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
def main():
    global SEED
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'): tier = a
    only = [a[5:] for a in sys.argv[2:] if a.startswith('only=')]
    verbose = '-v' in sys.argv
    work = tempfile.mkdtemp(prefix='verif_%s_' % pid, dir=os.environ.get('VERIF_TMP', '/tmp')); os.environ['VERIF_WORK'] = work
    try:
        return run(pid, tier, only, verbose, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run(pid, tier, only, verbose, work):
    from specs import props
    from se import harness as HH
    P = props.PROPS[pid]
    hs = P['harnesses'](tier)
    if only: hs = [h for h in hs if any(o in h.name for o in only)]
    assert len({h.name for h in hs}) == len(hs), 'duplicate harness names'
    limit = float(os.environ.get('VERIF_LIMIT', 780 if tier == 'quick' else 6 * 3600))
    per = P.get('group', 12)
    groups = []
    bykey = {}
    for h in hs: bykey.setdefault(h.opts.get('group', 0), []).append(h)
    for k, l in bykey.items():
        n = max(1, (len(l) + per - 1) // per)
        # spread so that the groups have similar cost
        for i in range(n): groups.append(l[i::n])
    nproc = min(8, os.cpu_count() or 4)
    from concurrent.futures import ThreadPoolExecutor
    HH.shim(HH.workdir())
    with ThreadPoolExecutor(nproc) as pool:
        res = list(pool.map(compile_group, [(g, 'g%d' % i) for i, g in enumerate(groups)]))
    t_comp = time.time() - T0
    broken = []; skipped = []
    if any(err for _, err in res):
        # a harness may fail to compile because the library rejects documented uses of it (a finding) or because nothing compiles at all (no answer)
        base = HH.H('empty', '', [], [], lambda *a: [])
        irt, err = compile_group(([base], 'base'))
        if err: print('the library does not compile:\n%s' % err); return 2
        new = []
        for g, (irt, err) in zip(groups, res):
            if not err: new.append((g, irt)); continue
            with ThreadPoolExecutor(nproc) as pool: rs1 = list(pool.map(compile_group, [([h], 's_' + h.name) for h in g]))
            ok = [h for h, (_, e1) in zip(g, rs1) if not e1]
            for h, (_, e1) in zip(g, rs1):
                if not e1: continue
                if h.opts.get('optional'): skipped.append((h, str(e1)[-300:])); continue
                try: HH.compile_so([h], 'sg_' + h.name, h.opts.get('cflags', ()))
                except HH.CompileError as ex: broken.append((h, [l for l in str(ex).split('\n') if 'error' in l][:1] or [str(ex)[:300]])); continue
                print('harness %s does not compile with clang:\n%s' % (h.name, e1)); return 2
            if ok:
                irt, e1 = compile_group((ok, 'r%d' % len(new)))
                if e1: print('harness group does not compile:\n%s' % e1); return 2
                new.append((ok, irt))
        groups = [g for g, _ in new]; res = [(i, None) for _, i in new]
    for i, (g, (irt, err)) in enumerate(zip(groups, res)): GROUPS.append((g, irt, 'g%d' % i))
    qin, qout = mp.Queue(), mp.Queue()
    jobs = [(gi, hi) for gi, (g, _, _) in enumerate(GROUPS) for hi in range(len(g))]
    # expensive first, grouped by module
    pend = list(jobs)
    results = {}
    ctx = mp.get_context('fork')
    procs = {}
    def spawn():
        q = ctx.Queue(); p = ctx.Process(target=worker, args=(q, qout, tier, print if verbose else (lambda *a: None)), daemon=True); p.start(); procs[p.pid] = [p, q, None, 0, None]
        return p.pid
    def nextjob(last):
        if not pend: return None
        def prio(j):
            b = GROUPS[j[0]][0][j[1]].opts.get('budget', 60)
            return (-b, 0 if j[0] == last else 1)
        j = min(pend, key=prio); pend.remove(j); return j
    for _ in range(min(nproc, len(jobs))):
        pid_ = spawn(); pr = procs[pid_]; j = nextjob(None); pr[2] = j; pr[3] = time.time(); pr[1].put(j)
    import queue
    stop = False
    while any(p[2] is not None for p in procs.values()):
        try: m = qout.get(timeout=1.0)
        except queue.Empty: m = None
        if m and m[0] == 'done':
            _, gi, hi, r = m
            results[(gi, hi)] = r
            if verbose: print('%-34s %-10s paths %-4s q %-5s %6.1fs %s' % (r['name'], r['status'], r.get('paths'), r.get('queries'), r.get('time_s', 0), (r['violation'] or r['undecided']) if r['status'] != 'proved' else '')); sys.stdout.flush()
            for p in procs.values():
                if p[2] == (gi, hi):
                    p[4] = gi; p[2] = nextjob(gi); p[3] = time.time()
                    if p[2]: p[1].put(p[2])
                    else: p[1].put(None)
        now = time.time()
        for k, p in list(procs.items()):
            if p[2] is None: continue
            h = GROUPS[p[2][0]][0][p[2][1]]
            hard = h.opts.get('budget', 60) * (6 if tier == 'thorough' else 1) * 1.6 + 60
            dead = not p[0].is_alive()
            if dead or now - p[3] > hard or now - T0 > limit:
                if dead and qout.qsize(): continue
                why = 'worker died' if dead else 'time limit'
                p[0].kill(); 
                results[p[2]] = dict(name=h.name, status='undecided', undecided=[why], nund=1, paths=0, queries=0, solver_s=0, time_s=round(now - p[3], 1), functions=[], violation=None, replays=0, reach=0)
                if verbose: print(h.name, 'undecided', why)
                del procs[k]
                if now - T0 > limit:
                    for j in pend:
                        hh = GROUPS[j[0]][0][j[1]]
                        results[j] = dict(name=hh.name, status='undecided', undecided=['not started: time limit'], nund=1, paths=0, queries=0, solver_s=0, time_s=0, functions=[], violation=None, replays=0, reach=0)
                    pend.clear()
                elif pend:
                    kk = spawn(); procs[kk][2] = nextjob(None); procs[kk][3] = time.time(); procs[kk][1].put(procs[kk][2])
    for p in procs.values():
        p[0].join(1)
        if p[0].is_alive(): p[0].kill()
    rs = [results[j] for j in jobs]
    for h, why in broken:
        rs.append(dict(name=h.name, status='violation', undecided=[], nund=0, paths=0, queries=0, solver_s=0, time_s=0, functions=[], replays=0, reach=0,
                       violation=dict(harness=h.name, failed='the documented call does not compile: ' + why[0], inputs={}, outputs=None, raw=[], symbol=h.sym())))
    for h, why in skipped:
        rs.append(dict(name=h.name, status='undecided', undecided=['the recording flavor does not offer what the front end now calls: ' + why], nund=1, paths=0, queries=0, solver_s=0, time_s=0, functions=[], replays=0, reach=0, violation=None))
    return report(pid, tier, P, rs, t_comp, {h.name: h for h in hs})

def known(pid):
    f = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f)) if k.get('property') == pid and k.get('status') == 'known']

def report(pid, tier, P, rs, t_comp, hmap):
    viol = []; und = []; kf = []
    for r in rs:
        for k in r.get('known_hits', []): kf.append(k)
        if r['status'] == 'violation': viol.append(r)
        elif r['status'] == 'undecided': und.append(r)
    for k in sorted(set(kf)): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    proved = [r for r in rs if r['status'] == 'proved']
    funcs = {}
    for r in rs:
        for f in r['functions']: funcs[f] = funcs.get(f, 0) + 1
    level = 'model_checking'
    ev = dict(property=pid, tier=tier, seed=SEED, level=level, wall_s=round(time.time() - T0, 2), violations=len(viol),
              assumptions=P.get('assumptions', []) + props_common(),
              coverage=dict(states=sum(r.get('steps', 0) for r in rs), transitions=sum(r.get('forks', 0) + r.get('merges', 0) for r in rs),
                            traces_validated_against_impl=sum(r.get('replays', 0) + r.get('witness', 0) for r in rs),
                            harnesses=len(rs), proved=len(proved), undecided=len(und), violated=len(viol),
                            paths=sum(r.get('paths', 0) for r in rs), queries=sum(r.get('queries', 0) for r in rs), solver_s=round(sum(r.get('solver_s', 0) for r in rs), 1),
                            compile_s=round(t_comp, 1), functions_encoded=len(funcs),
                            functions=sorted(demangle(list(funcs)))[:400],
                            explanation='states = IR instructions executed symbolically, transitions = symbolic branches forked or merged; a harness is proved when on every feasible path the solver refutes the negated property for all inputs in its bound',
                            samples=[dict(harness=r['name'], status=r['status'], bound=r.get('bound'), paths=r.get('paths'), queries=r.get('queries'), solver_s=r.get('solver_s'), time_s=r.get('time_s'), reachable_witness=r.get('reach')) for r in rs],
                            undecided_detail=[dict(harness=r['name'], why=r['undecided'][:3]) for r in und]))
    evd = os.environ.get('VERIF_EVID', os.path.join(HERE, 'evidence')); os.makedirs(evd, exist_ok=True)
    f = os.path.join(evd, pid + '.json')
    json.dump(ev, open(f + '.tmp', 'w'), indent=1, default=str); os.rename(f + '.tmp', f)
    print('%s: %d harnesses, %d proved, %d undecided, %d violated; %d paths, %d queries, %.0f s' % (pid, len(rs), len(proved), len(und), len(viol), ev['coverage']['paths'], ev['coverage']['queries'], time.time() - T0))
    for r in und: print('  undecided %s: %s' % (r['name'], '; '.join(str(u)[:300] for u in r['undecided'][:2])))
    if viol:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        for r in viol:
            v = r['violation']
            p = os.path.join(HERE, 'replay', '%s_%s.json' % (pid, r['name']))
            json.dump(dict(v, property=pid, body=hmap[r['name']].body, how='python3-vt replay.py %s' % p), open(p, 'w'), indent=1)
            print('  %s: %s  inputs %s -> %s' % (r['name'], v['failed'], v['inputs'], v['outputs']))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    return 0

def demangle(l):
    import subprocess
    try: return subprocess.run(['c++filt'], input='\n'.join(l), capture_output=True, text=True).stdout.split('\n')[:len(l)]
    except Exception: return l
def props_common():
    return ['MPFR honours its documented contract (correct rounding in the current exponent range, ternary value, mpfr_subnormalize)', 'clang -O1 lowering of the library is the program that is analysed; counterexamples are replayed on a g++ build',
            'no signalling NaN inputs; IEEE 754 default rounding mode of the calling environment']
if __name__ == '__main__':
    rc = main(); sys.stdout.flush(); os._exit(rc)
