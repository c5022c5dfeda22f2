#!/usr/bin/env python3-vt
"""set-up: checks that the tools are there and that the engine proves one small harness and refutes a wrong specification of it"""
import sys, os, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
work = tempfile.mkdtemp(prefix='verif_setup_'); os.environ['VERIF_WORK'] = work
try:
    import z3
    from specs.lib import *
    from se import harness as HH, ir
    good = op_harnesses(OPS['add'], 'd', ('d', 'd'), False)
    bad = op_harnesses(OPS['sub'], 'd', ('d', 'd'), False); bad.name = 'wrong'; bad.body = bad.body.replace('::sub', '::add')
    hs = [good, bad]
    irt = ir.Module(HH.compile_ir(hs, 's')); so = HH.compile_so(hs, 's'); nat = HH.Native(so)
    res = [HH.Run(h, irt, lambda: nat).go()['status'] for h in hs]
    nat.close(); print('selftest', res)
    rc = 0 if res == ['proved', 'violation'] else 1
finally: shutil.rmtree(work, ignore_errors=True)
sys.exit(rc)
