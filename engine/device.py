"""The camera on the other end of the I2C bus, once as a symbolic environment and once, driven by a
solver model, as the device the natively compiled library talks to.  Both use the same naming:

  ee<i>              EEPROM word 0x2400+i: the same on every read
  status_<k>, control_<k>, i2c_<k>   value returned by the k-th read of that register (unconstrained: the
                     device may change them at any time, whatever was written)
  ram_<addr>_<k>     RAM word, k-th time it is read
  fault_<n>          outcome of the n-th transaction: 0 success, anything else the error the bus reports
  garb_<n>_<i>       what a failed read leaves in the buffer
"""
import terms as tm
from terms import T, extract, concat, eq, not_, and_, is_c
from execu import vals, TooMany, Bus
from llvm import Unsupported

EE, NEE = 0x2400, 832
REGS = {0x8000: "status", 0x800D: "control", 0x800F: "i2c"}


class Op:
    """one bus transaction as observed"""
    __slots__ = ("kind", "addr", "reg", "n", "data", "fault", "raw")

    def __init__(self, kind, addr, reg, n, data, fault, raw):
        self.kind = kind      # 'r' or 'w'
        self.addr = addr      # device address (term)
        self.reg = reg        # register/memory address (int or None)
        self.n = n            # bytes read / bytes written after the register address
        self.data = data      # list of byte terms (read: returned, None on failure; write: sent)
        self.fault = fault    # 0 or term/int
        self.raw = raw

    def word(self, i=0):
        return concat([(self.data[2 * i], 8), (self.data[2 * i + 1], 8)])

    def __repr__(self):
        return "%s[%s %s n=%d%s]" % (self.kind, tm.show(self.addr, 2), hex(self.reg) if self.reg is not None else None, self.n, " FAULT" if self.failed else "")

    @property
    def failed(self):
        return self.fault != 0 if is_c(self.fault) else True


FIX = [{}]           # variable name -> {bit: value}: bits of register reads a case split has fixed
EE_WORD = [None]     # how an EEPROM word is formed from variables (default: one free 16-bit variable each)


def fixed(name):
    v = tm.var(name, 16)
    f = FIX[0].get(name)
    return concat([(f[i] if i in f else extract(v, i, i), 1) for i in range(15, -1, -1)]) if f else v


def word_var(word, log):
    """the variable a read of memory word returns, given the earlier transactions"""
    if EE <= word < EE + NEE:
        return EE_WORD[0](word - EE) if EE_WORD[0] else tm.var("ee%d" % (word - EE), 16)
    k = 0
    for o in log:
        if o.kind == "r" and o.reg is not None and o.reg <= word < o.reg + (o.n + 1) // 2:
            k += 1
    if word in REGS:
        return fixed("%s_%d" % (REGS[word], k))
    return tm.var("ram_%04x_%d" % (word, k), 16)


def read_data(reg, n, log):
    out = []
    for i in range((n + 1) // 2):
        w = word_var(reg + i, log)
        out += [extract(w, 15, 8), extract(w, 7, 0)]
    return out[:n]


class Device(Bus):
    """max_faults: how many transactions may fail in one run; fault_from: faults only from that
    transaction number on; max_ops: transactions after which a run is cut (recorded in .cut)"""

    def __init__(self, max_faults=0, fault_from=0, max_ops=400, fault_on=None):
        self.fault_on = fault_on      # addresses whose transactions may fail (default: all)
        self.max_faults = max_faults
        self.fault_from = fault_from
        self.max_ops = max_ops
        self.cut = 0
        self.cuts = []

    def transact(self, ex, st, kind, addr, wb, rl):
        log = st.log.list()
        n = len(log)
        if n >= self.max_ops:
            self.cut += 1
            if self.cut <= 64:
                self.cuts.append((st.pc, st.mem, st.log))
            return []
        out = []
        if len(wb) >= 2:
            regt = concat([(wb[0], 8), (wb[1], 8)])
            try:
                alts = vals(regt, 16, 64)
            except TooMany:
                raise Unsupported("bus access to an unbounded set of registers")
        else:
            alts = {None: 1}
        faults = sum(1 for o in log if o.failed)
        can = faults < self.max_faults and n >= self.fault_from
        f = tm.var("fault_%d" % n, 32)
        for reg, c in alts.items():
            if c == 0:
                continue
            if kind == "write_read":
                data = read_data(reg, rl, log) if reg is not None and len(wb) == 2 else [tm.var("odd_%d_%d" % (n, i), 8) for i in range(rl)]
                op = Op("r", addr, reg, rl, data, 0, wb)
                fop = Op("r", addr, reg, rl, None, f, wb)
                garb = [tm.var("garb_%d_%d" % (n, i), 8) for i in range(rl)] if can else None
            else:
                op = Op("w", addr, reg, len(wb) - 2, wb[2:], 0, wb)
                fop = Op("w", addr, reg, len(wb) - 2, wb[2:], f, wb)
                data = garb = None
            if can and (self.fault_on is None or reg in self.fault_on):
                isf = not_(eq(f, 0, 32))
                out.append((and_(c, not_(isf), 1), 0, data, op))
                out.append((and_(c, isf, 1), f, garb, fop))
            else:
                out.append((c, 0, data, op))
        return out


class Concrete:
    """the same device with the variables taken from env; used by the native replay"""

    def __init__(self, env, allow_faults=True, max_ops=5000):
        self.env = env
        self.log = []
        self.allow = allow_faults
        self.max_ops = max_ops

    def v(self, t):
        return tm.evaluate(t, self.env)

    def transact(self, kind, addr, wb, rl):
        """-> (ret, data bytes or None)"""
        n = len(self.log)
        reg = (wb[0] << 8 | wb[1]) if len(wb) >= 2 else None
        f = self.env.get("fault_%d" % n, 0) & 0xffffffff if self.allow else 0
        if n >= self.max_ops:
            f = 0x7fffffff
        if kind == "write_read":
            if f:
                self.log.append(Op("r", addr, reg, rl, None, f, wb))
                return f, [self.env.get("garb_%d_%d" % (n, i), 0) & 255 for i in range(rl)]
            data = read_data(reg, rl, self.log) if reg is not None and len(wb) == 2 else [tm.var("odd_%d_%d" % (n, i), 8) for i in range(rl)]
            self.log.append(Op("r", addr, reg, rl, data, 0, wb))
            return 0, [self.v(t) for t in data]
        self.log.append(Op("w", addr, reg, len(wb) - 2, list(wb[2:]), f, wb))
        return f, None
