"""Memory controller stand-in for a LiteDRAM native port: seeded command and data stalls."""
from .kernel import Violation


class Stall:
    """ready schedule: list of [mode, cycles, p]; cyclic; always ready after `until` (ps)"""
    def __init__(self, segs, rng, until=None):
        self.rng = rng
        self.segs = segs or [["on", 1000, 0]]
        self.i = 0
        self.left = self.segs[0][1]
        self.k = 0
        self.stalled = 0
        self.off = False

    def __call__(self):
        if self.off:
            return 1
        if self.left <= 0:
            self.i = (self.i + 1) % len(self.segs)
            self.left = self.segs[self.i][1]
            self.k = 0
        self.left -= 1
        self.k += 1
        m, n, p = self.segs[self.i]
        if m == "on":
            return 1
        r = 0 if m == "off" else int(self.rng.random() * 100 < p) if m == "rnd" else int(self.k % (p + 1) == 0)
        if not r:
            self.stalled += 1
        return r


def gen_stall(rng, heavy=1):
    out = [["on", rng.randrange(1, 60), 0]]
    for _ in range(rng.randrange(0, 3 + heavy)):
        out.append([rng.choice(["on", "off", "rnd", "rnd", "every"]), rng.choice([1, 3, 10, 30, 80]), rng.choice([1, 2, 3, 8, 20, 50, 80])])
    return out


class WritePort:
    """accepts commands, then takes the data of each command, in order, one or more cycles later"""
    def __init__(self, k, port, domain, cmd_stall, data_stall, on_cmd, on_data):
        d = k.d
        self.k, self.d, self.mv = k, d, d.mv
        self.port = port
        self.cv, self.cr, self.ca, self.cw = d.ridx(port.cmd.valid), d.widx(port.cmd.ready), d.ridx(port.cmd.addr), d.ridx(port.cmd.we)
        self.wv, self.wr = d.ridx(port.wdata.valid), d.widx(port.wdata.ready)
        self.full = 2**(port.data_width // 8) - 1
        self.cs, self.ds = cmd_stall, data_stall
        self.on_cmd, self.on_data = on_cmd, on_data
        self.out = 0
        self.r = self.dr = 0
        self.held = None
        k.hook(domain, self.step)

    def step(self):
        mv = self.mv
        if self.dr:
            if not mv[self.wv]:
                raise Violation("no-write-data", "the memory takes the data of an accepted command but none are presented")
            we = self.d.get(self.port.wdata.we)
            if we != self.full:
                raise Violation("partial-write", "a word is written with byte enables %x" % we)
            self.on_data(self.d.get(self.port.wdata.data))
            self.out -= 1
        if mv[self.cv]:
            a = (mv[self.ca], mv[self.cw])
            if self.held is not None and self.held != a:
                raise Violation("unstable-command", "command %r changed to %r before it was accepted" % (self.held, a))
            self.held = a
            if self.r:
                if not a[1]:
                    raise Violation("read-command", "the capture DMA issued a read")
                self.on_cmd(a[0])
                self.out += 1
                self.held = None
        elif self.held is not None:
            raise Violation("retracted-command", "a command disappeared before it was accepted")
        self.r = self.cs()
        mv[self.cr] = self.r
        self.dr = 1 if self.out > 0 and self.ds() else 0
        mv[self.wr] = self.dr


class ReadPort:
    """in-order read data after a seeded latency; `mem(addr)` gives the word"""
    def __init__(self, k, port, domain, cmd_stall, data_stall, mem, on_cmd, latency=(1, 6), rng=None):
        d = k.d
        self.k, self.d, self.mv = k, d, d.mv
        self.port = port
        self.cv, self.cr, self.ca, self.cw = d.ridx(port.cmd.valid), d.widx(port.cmd.ready), d.ridx(port.cmd.addr), d.ridx(port.cmd.we)
        self.rv, self.rr = d.widx(port.rdata.valid), d.ridx(port.rdata.ready)
        self.cs, self.ds = cmd_stall, data_stall
        self.mem, self.on_cmd = mem, on_cmd
        self.lat = latency
        self.rng = rng
        self.q = []
        self.cyc = 0
        self.r = 0
        self.pres = False
        self.held = None
        self.naccept = 0
        k.hook(domain, self.step)

    def step(self):
        mv = self.mv
        self.cyc += 1
        if self.pres:
            if not mv[self.rr]:
                raise Violation("read-data-refused", "read data came back and the reader does not take it (the controller cannot wait)")
            self.pres = False
            self.q.pop(0)
        if mv[self.cv]:
            a = (mv[self.ca], mv[self.cw])
            if self.r:
                if a[1]:
                    raise Violation("write-command", "the scan-out DMA issued a write")
                self.on_cmd(a[0])
                self.naccept += 1
                lo, hi = self.lat
                self.q.append((self.cyc + self.rng.randrange(lo, hi + 1), a[0]))
        self.r = self.cs()
        mv[self.cr] = self.r
        if self.q and self.q[0][0] <= self.cyc and self.ds():
            self.d.set(self.port.rdata.data, self.mem(self.q[0][1]))
            mv[self.rv] = 1
            self.pres = True
        else:
            mv[self.rv] = 0
