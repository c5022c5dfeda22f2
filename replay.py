#!/usr/bin/env python3-vt
"""replay.py <replay.json>: run the recorded counterexample against a fresh build of /repo and judge the result with the specification."""
import sys, os, json, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
d = json.load(open(sys.argv[1]))
work = tempfile.mkdtemp(prefix='verif_replay_'); os.environ['VERIF_WORK'] = work
try:
    from specs import props
    from se import harness as HH
    for tier in ('quick', 'thorough'):
        hs = [h for h in props.PROPS[d['property']]['harnesses'](tier) if h.name == d['harness']]
        if hs: break
    h = hs[0]; so = HH.compile_so([h], 'r'); nat = HH.Native(so)
    run = HH.Run(h, None, lambda: nat)
    vals = [int(x, 16) for x in d['raw']]
    r = run.native(vals)
    print('harness body:\n' + h.body); print('inputs', {n: HH.show(v, k) for v, (n, k) in zip(vals, h.ins)})
    if isinstance(r, tuple) or r is None: print('crash', r); rc = 1
    else:
        print('outputs', {n: HH.show(HH.dec_slot(r[16 * i:16 * i + 16], k), k) for i, (n, k) in enumerate(h.outs)})
        inb = b''.join(HH.enc_slot(v, k) for v, (n, k) in zip(vals, h.ins)) or bytes(16)
        why = HH.memcheck(h, inb, h.opts.get('cflags', ())) if 'memory' in str(d.get('failed')) else None
        if why: print('memory:', why)
        ok, bad = run.concrete_ok(vals, r); print('specification', 'holds' if ok else 'VIOLATED: %s' % bad); rc = 0 if ok and not why else 1
    nat.close()
finally: shutil.rmtree(work, ignore_errors=True)
sys.exit(rc)
