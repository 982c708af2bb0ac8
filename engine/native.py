"""Calls: one description of an entry-point call (buffers + arguments, values are terms), instantiated
symbolically (on an Exec) or natively (ctypes in a forked child, values evaluated under a model)."""
import ctypes
import os
import pickle
import signal
import struct
import tempfile

import terms as tm
from terms import T, extract
from device import Concrete, Op, read_data

CT = {"u8": ctypes.c_uint8, "u16": ctypes.c_uint16, "u32": ctypes.c_uint32, "i16": ctypes.c_int16, "i32": ctypes.c_int32,
      "usize": ctypes.c_size_t, "f": ctypes.c_float, "p": ctypes.c_void_p, "u64": ctypes.c_uint64, "i64": ctypes.c_int64}
W = {"u8": 8, "u16": 16, "u32": 32, "i16": 16, "i32": 32, "usize": 64, "f": 32, "p": 64, "u64": 64, "i64": 64}


class Ptr:
    def __init__(self, buf, off=0):
        self.buf, self.off = buf, off


class Call:
    def __init__(self, fname, ret="i64"):
        self.fname = fname
        self.ret = ret
        self.bufs = {}     # name -> [(offset, value, nbytes)], size
        self.size = {}
        self.args = []

    def buf(self, name, size, align=8):
        self.bufs[name] = []
        self.size[name] = size
        return Ptr(name)

    def put(self, name, off, val, n):
        self.bufs[name].append((off, val, n))
        if off + n > self.size[name]:
            raise ValueError("put beyond buffer")

    def arg(self, ty, val):
        self.args.append((ty, val))
        return self

    # ---------------------------------------------------------------- symbolic
    def run(self, ex, pc=None):
        base = {n: ex.alloc(self.size[n]) for n in self.bufs}
        for n, cells in self.bufs.items():
            for off, val, k in cells:
                if isinstance(val, Ptr):
                    val = base[val.buf] + val.off
                ex.put(base[n] + off, val, k)
        args = [base[v.buf] + v.off if isinstance(v, Ptr) else v for _, v in self.args]
        finals = ex.run(self.fname, args, pc)
        return [SymObs(f, base, self) for f in finals]

    # ---------------------------------------------------------------- native
    def native(self, so, env, timeout=20, max_ops=5000):
        """-> NatObs"""
        r, w = os.pipe()
        err = tempfile.TemporaryFile()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.dup2(err.fileno(), 2)
                signal.alarm(timeout)
                os.environ["RUST_BACKTRACE"] = "0"
                self._child(so, env, w, max_ops)
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(99)
            os._exit(0)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
        os.close(r)
        _, status = os.waitpid(pid, 0)
        err.seek(0)
        msg = err.read().decode("utf8", "replace")
        err.close()
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0 and data:
            ret, bufs, log = pickle.loads(data)
            return NatObs(self, ret, bufs, log, None)
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 99:
            raise RuntimeError("native replay failed: " + msg[-2000:])
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
        kind = "panic" if sig == signal.SIGABRT else "hang" if sig == signal.SIGALRM else "crash (signal %d)" % sig
        return NatObs(self, None, None, None, kind + ": " + " ".join(msg.split("note: run with")[0].split())[:300])

    def _child(self, so, env, w, max_ops):
        lib = ctypes.CDLL(so)
        dev = Concrete(env, max_ops=max_ops)
        WR = ctypes.CFUNCTYPE(ctypes.c_int32, ctypes.c_uint32, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_void_p, ctypes.c_size_t)
        WF = ctypes.CFUNCTYPE(ctypes.c_int32, ctypes.c_uint32, ctypes.c_void_p, ctypes.c_size_t)

        def wr(a, wp, wl, rp, rl):
            ret, d = dev.transact("write_read", a, list(ctypes.string_at(wp, wl)), rl)
            if d is not None and rl:
                ctypes.memmove(rp, bytes(d), rl)
            return ret - (1 << 32) if ret >> 31 else ret

        def wf(a, wp, wl):
            ret, _ = dev.transact("write", a, list(ctypes.string_at(wp, wl)), None)
            return ret - (1 << 32) if ret >> 31 else ret
        h1, h2 = WR(wr), WF(wf)
        lib.set_hooks.argtypes = [WR, WF]
        lib.set_hooks.restype = None
        lib.set_hooks(h1, h2)
        bufs = {n: (ctypes.c_uint64 * ((s + 15) // 8))() for n, s in self.size.items()}
        addr = {n: ctypes.addressof(b) for n, b in bufs.items()}
        cache = {}
        for n, cells in self.bufs.items():
            for off, val, k in cells:
                if isinstance(val, Ptr):
                    v = addr[val.buf] + val.off
                else:
                    v = tm.evaluate(val, env, cache)
                ctypes.memmove(addr[n] + off, int(v).to_bytes(k, "little"), k)
        f = getattr(lib, self.fname)
        f.argtypes = [CT[t] for t, _ in self.args]
        f.restype = CT[self.ret] if self.ret else None
        args = []
        for t, v in self.args:
            if isinstance(v, Ptr):
                args.append(addr[v.buf] + v.off)
                continue
            v = tm.evaluate(v, env, cache)
            if t == "f":
                args.append(ctypes.c_float.from_buffer_copy(struct.pack("<I", v)))
            else:
                args.append(CT[t](v))
        ret = f(*args)
        if self.ret == "f":
            # c_float results come back as Python floats
            import numpy as np
            ret = int(np.float32(ret).view(np.uint32))
        elif self.ret:
            ret &= (1 << W[self.ret]) - 1
        out = {n: ctypes.string_at(addr[n], s) for n, s in self.size.items()}
        log = [(o.kind, o.addr, o.reg, o.n, [int(b) for b in o.data] if o.kind == "w" else None, o.fault, o.raw) for o in dev.log]
        data = pickle.dumps((ret, out, log))
        while data:
            data = data[os.write(w, data):]


class SymObs:
    panic = None

    def __init__(self, final, base, call):
        self.final = final
        self.base = base
        self.call = call
        self.ret = final.ret
        self.log = final.log.list()

    def get(self, buf, off, n):
        return self.final.mem.load(self.base[buf] + off, n)


class NatObs:
    def __init__(self, call, ret, bufs, log, panic):
        self.call, self.ret, self.bufs, self.panic = call, ret, bufs, panic
        self.log = []
        for kind, addr, reg, n, data, fault, raw in log or []:
            if kind == "r" and not fault:
                data = read_data(reg, n, self.log) if reg is not None and len(raw) == 2 else [tm.var("odd_%d_%d" % (len(self.log), i), 8) for i in range(n)]
            self.log.append(Op(kind, addr, reg, n, data, fault, raw))

    def get(self, buf, off, n):
        return int.from_bytes(self.bufs[buf][off:off + n], "little")
