"""child process: calls harness functions of the real compiled code; one json request per line"""
import sys, json, ctypes, os, resource
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
so = ctypes.CDLL(sys.argv[1])
out_fd = os.dup(1); os.dup2(2, 1)
import signal
for line in sys.stdin:
    fn, hexin, n = json.loads(line)
    signal.alarm(20)
    i = bytes.fromhex(hexin)
    raw = ctypes.create_string_buffer(len(i) + 32); a = (ctypes.addressof(raw) + 15) & ~15
    ctypes.memmove(a, i, len(i))
    ro = ctypes.create_string_buffer(n + 32); o = (ctypes.addressof(ro) + 15) & ~15
    f = getattr(so, fn); f.argtypes = [ctypes.c_void_p, ctypes.c_void_p]; f.restype = None
    f(a, o)
    os.write(out_fd, (json.dumps(ctypes.string_at(o, n).hex()) + '\n').encode())
