"""The simulation kernel: virtual time (ps), clocks, processes, CSR bus master, streams.

Everything runs in one process and one thread.  Order of execution at one instant: timed
events (heap order), then, for clock edges, the hooks of every rising domain in registration
order (reading pre-edge values, queueing post-edge input values), then the edge itself."""
import ctypes
import heapq
import random

from migen import *
from litex.soc.interconnect import csr, csr_bus

from .fhdl2c import Design, SimModelError


class Violation(Exception):
    """A property violation. `cls` is the stable class used for matching and shrinking."""
    def __init__(self, cls, msg, **info):
        Exception.__init__(self, "%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg
        self.info = info


class Stop(Exception):
    pass


M64 = 2**64 - 1


class Kernel:
    def __init__(self, design, seed=1, metaw=0):
        self.d = d = design
        d.reset()
        self.mv = d.mv
        self.mv[d.C_PRNG] = (seed * 0x9E3779B97F4A7C15 + 0x1234567) & M64 or 1
        self.mv[d.C_METAW] = metaw
        self.heap = []
        self.seq = 0
        self.hooks = [[] for _ in d.roots]
        self.brk = 0
        self.stopped = False
        self.n_hooks = 0
        self._run = d.lib.run
        self._addr = ctypes.c_void_p(d.addr)

    # -- clocks
    def clock(self, domain, period, phase=None, jitter=0):
        r = self.d.domain_root[domain] if domain in self.d.domain_root else self.d.roots.index(domain)
        mv = self.mv
        d = self.d
        first = self.now + (period if phase is None else phase)
        mv[d.C_PERIOD + r] = period
        mv[d.C_NEXT + r] = first
        mv[d.C_BASE + r] = first
        mv[d.C_JITTER + r] = jitter
        mv[d.C_PHASE + r] = 0
        return r

    def clock_stop(self, domain):
        r = self.d.domain_root[domain] if domain in self.d.domain_root else self.d.roots.index(domain)
        self.mv[self.d.C_PERIOD + r] = 0

    def clock_running(self, domain):
        r = self.d.domain_root[domain] if domain in self.d.domain_root else self.d.roots.index(domain)
        return self.mv[self.d.C_PERIOD + r] != 0

    def edges(self, domain):
        return self.mv[self.d.C_COUNT + self.d.domain_root[domain]]

    @property
    def now(self):
        return self.mv[self.d.C_TIME]

    # -- processes
    def hook(self, domain, fn):
        """fn() before every rising edge of domain"""
        r = self.d.domain_root[domain]
        self.hooks[r].append(fn)
        self.brk |= 1 << r
        return (r, fn)

    def unhook(self, h):
        r, fn = h
        self.hooks[r].remove(fn)
        if not self.hooks[r]:
            self.brk &= ~(1 << r)

    def thread(self, domain, gen):
        """generator resumed before every rising edge of domain"""
        nx = gen.__next__
        state = {}

        def step():
            try:
                nx()
            except StopIteration:
                self.unhook(state["h"])
                state["done"] = True
        state["h"] = self.hook(domain, step)
        state["done"] = False
        return state

    def at(self, t, fn):
        self.seq += 1
        heapq.heappush(self.heap, (t, self.seq, fn))

    def after(self, dt, fn):
        self.at(self.now + dt, fn)

    def process(self, gen):
        """generator yielding delays in ps"""
        def step():
            try:
                dt = next(gen)
            except StopIteration:
                return
            self.at(self.now + dt, step)
        self.at(self.now, step)

    def stop(self):
        self.stopped = True

    # -- signals
    def get(self, s):
        return self.d.get(s)

    def set(self, s, v):
        self.d.set(s, v)

    def apply(self):
        self.d.lib.apply(self._addr)
        if self.mv[self.d.C_OSC]:
            raise Violation("comb-oscillation", "combinational loop does not settle at t=%d" % self.now)

    def run(self, until):
        mv = self.mv
        heap = self.heap
        run = self._run
        addr = self._addr
        hooks = self.hooks
        d = self.d
        T = d.C_TIME
        self.stopped = False
        self.apply()
        while not self.stopped:
            lim = until
            if heap and heap[0][0] < lim:
                lim = heap[0][0]
            m = run(addr, lim, self.brk)
            if m == 0:
                now = mv[T]
                if heap and heap[0][0] <= now:
                    while heap and heap[0][0] <= now:
                        heapq.heappop(heap)[2]()
                    self.apply()
                if now >= until:
                    return
            elif m == M64:
                raise Violation("comb-oscillation", "combinational loop does not settle at t=%d" % mv[T])
            else:
                i = 0
                while m:
                    if m & 1:
                        hs = hooks[i]
                        if hs:
                            for h in tuple(hs):
                                h()
                            self.n_hooks += len(hs)
                    m >>= 1
                    i += 1


# ---------------------------------------------------------------------------------------
class CSRTop(Module):
    """Wraps a device under test with a real CSR bank (and CSR-mapped memories)."""
    def __init__(self, dut, busword=8, mems=True, domain="sys"):
        self.submodules.dut = dut
        self.bus = csr_bus.Interface(data_width=busword, address_width=14)
        csrs = dut.get_csrs()
        self.submodules.bank = csr_bus.CSRBank(csrs, address=0, bus=csr_bus.Interface(data_width=busword, address_width=14))
        slaves = [self.bank.bus]
        self.mem_map = {}
        if mems and hasattr(dut, "get_memories"):
            for i, m in enumerate(dut.get_memories()):
                if isinstance(m, tuple):
                    m = m[1]
                s = csr_bus.SRAM(m, 1 + i, bus=csr_bus.Interface(data_width=busword, address_width=14))
                self.submodules += s
                slaves.append(s.bus)
                self.mem_map[m.name_override] = (1 + i) * 0x200
        self.comb += self.bus.connect(*slaves) if False else []
        for b in slaves:
            self.comb += [b.adr.eq(self.bus.adr), b.we.eq(self.bus.we), b.dat_w.eq(self.bus.dat_w)]
        orall = 0
        for b in slaves:
            orall = orall | b.dat_r
        self.comb += self.bus.dat_r.eq(orall)
        self.busword = busword
        # name -> (first address, words, total bits)
        self.regs = {}
        grp = {}
        for i, c in enumerate(self.bank.simple_csrs):
            grp[id(c)] = i
        for c in csrs:
            if isinstance(c, csr._CompoundCSR):
                subs = c.get_simple_csrs()
                idx = [grp[id(s)] for s in subs]
                self.regs[c.name] = (min(idx), len(idx), c.size)
            else:
                self.regs[c.name] = (grp[id(c)], 1, c.size)
        self.keep = [self.bus.adr, self.bus.we, self.bus.dat_w, self.bus.dat_r]


class CSRMaster:
    """CPU side of the CSR bus; one sys-domain generator at a time."""
    def __init__(self, k, top):
        self.k = k
        self.top = top
        d = k.d
        self.mv = d.mv
        self.a, self.w, self.dw = d.widx(top.bus.adr), d.widx(top.bus.we), d.widx(top.bus.dat_w)
        self.r = d.ridx(top.bus.dat_r)
        self.rng = None      # optional: random gaps between accesses
        self.gap = 0
        self.log = []

    def _pause(self):
        if self.rng is not None and self.gap:
            for _ in range(self.rng.randrange(self.gap + 1)):
                yield

    def write_word(self, addr, v):
        mv = self.mv
        mv[self.a] = addr
        mv[self.dw] = v
        mv[self.w] = 1
        yield
        mv[self.w] = 0
        yield from self._pause()

    def read_word(self, addr):
        mv = self.mv
        mv[self.a] = addr
        mv[self.w] = 0
        yield
        yield
        v = mv[self.r]
        yield from self._pause()
        return v

    def has(self, name):
        return name in self.top.regs

    def write(self, name, v):
        a, n, bits = self.top.regs[name]
        bw = self.top.busword
        for i in range(n):
            sh = bw * (n - 1 - i)
            yield from self.write_word(a + i, (v >> sh) & ((1 << bw) - 1))

    def read(self, name):
        a, n, bits = self.top.regs[name]
        bw = self.top.busword
        v = 0
        for i in range(n):
            w = yield from self.read_word(a + i)
            v = (v << bw) | w
        return v


# ---------------------------------------------------------------------------------------
def stable_hash(*parts):
    import hashlib
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "little")
