"""Compile a Migen fragment to a C step function (two-phase, multi-clock).

The real gateware of /repo is elaborated by Migen itself; what is compiled here is the
fragment Migen would otherwise hand to its Verilog back-end or to its own Python simulator.
Semantics follow migen.sim.core (Python integers, truncation on assignment); the self test
(sim/selftest.py) compares the two on random programs and on the repository's own modules.

Nothing here draws random numbers except the metastability/jitter PRNG whose state lives in
the design's state buffer, seeded by the kernel.
"""
import ctypes
import hashlib
import os
import subprocess
import tempfile

from migen import *
from migen.fhdl.structure import (_Value, _Operator, _Slice, _Part, _ArrayProxy,
                                  _Assign, _Fragment)
from migen.fhdl.bitcontainer import value_bits_sign
from migen.fhdl.specials import (_MemoryPort, Memory, Instance, Tristate, Special,
                                 READ_FIRST, WRITE_FIRST, NO_CHANGE)
from migen.fhdl.tools import lower_specials, insert_resets
from migen.genlib.cdc import MultiReg
from migen.genlib.resetsync import AsyncResetSynchronizer

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))


class SimModelError(Exception):
    """The simulator cannot represent something (a harness limit, not a violation)."""


# ---------------------------------------------------------------------------------------
# lowering context
# ---------------------------------------------------------------------------------------
class LowerCtx:
    """Collects what behavioural models expose to the kernel while specials are lowered."""
    def __init__(self):
        self.tristates = []   # (target, o, oe, ext)
        self.models = []      # vendor primitive models
        self.named_roots = {} # duid -> name of clock root driven by a model
        self.metas = []       # (isig, mask, prev, root domain name)
        self.extra = []       # signals that must exist
        self.async_rst = []


class _MetaMultiRegImpl(Module):
    def __init__(self, ctx, dr):
        w, signed = value_bits_sign(dr.i)
        isig = Signal((w, signed))
        self.comb += isig.eq(dr.i)
        mask = Signal(w)
        prev = Signal(w)
        regs = [Signal((w, signed), reset=dr.reset, reset_less=True) for _ in range(dr.n)]
        sd = getattr(self.sync, dr.odomain)
        src = (isig & ~mask) | (prev & mask)
        for reg in regs:
            sd += reg.eq(src)
            src = reg
        self.comb += dr.o.eq(regs[-1])
        if w <= 63:
            ctx.metas.append((isig, mask, prev, dr.odomain))
        ctx.extra += [isig, mask, prev]


class _ARSImpl(Module):
    """Asynchronous assertion, release on the second clock edge after the input drops."""
    def __init__(self, ctx, dr):
        a = Signal()
        f1 = Signal(reset=1, reset_less=True)
        f2 = Signal(reset=1, reset_less=True)
        self.comb += [a.eq(dr.async_reset), dr.cd.rst.eq(a | f2)]
        sd = getattr(self.sync, dr.cd.name)
        sd += [f1.eq(a), f2.eq(f1 | a)]


class _TristateImpl(Module):
    def __init__(self, ctx, t):
        if t._isrecord:
            self.comb += [t.target.o.eq(t.o), t.target.oe.eq(t.oe)]
            if t.i is not None:
                self.comb += t.i.eq(t.target.i)
        else:
            n = len(t.target)
            ext = Signal(n, reset=2**n - 1)
            o, oe = Signal(n), Signal()
            self.comb += [o.eq(t.o), oe.eq(t.oe)]
            # wired-AND line: anybody pulling low wins, otherwise the outside level
            self.comb += t.target.eq(Mux(oe, o & ext, ext))
            if t.i is not None:
                self.comb += t.i.eq(t.target)
            ctx.tristates.append((t.target, o, oe, ext))
            ctx.extra += [o, oe, ext, t.target]


def _overrides(ctx, instance_models):
    class MR:
        @staticmethod
        def lower(dr):
            return _MetaMultiRegImpl(ctx, dr)

    class ARS:
        @staticmethod
        def lower(dr):
            return _ARSImpl(ctx, dr)

    class TS:
        @staticmethod
        def lower(dr):
            return _TristateImpl(ctx, dr)

    class INST:
        @staticmethod
        def lower(dr):
            m = instance_models.get(dr.of)
            dr.sim_cds = ctx.cds
            if m is None:
                raise SimModelError("no behavioural model for Instance " + dr.of)
            return m(ctx, dr)
    return {MultiReg: MR, AsyncResetSynchronizer: ARS, Tristate: TS, Instance: INST}


# ---------------------------------------------------------------------------------------
# expression compiler
# ---------------------------------------------------------------------------------------
def _ctype(lo, hi):
    for bits, t in ((64, "i64"), (128, "i128"), (256, "w256"), (512, "w512"),
                    (1024, "w1024"), (2048, "w2048"), (4096, "w4096"), (8192, "w8192")):
        if lo >= -(1 << (bits - 1)) and hi < (1 << (bits - 1)):
            return t
    raise SimModelError("expression too wide")


_TBITS = {"i64": 64, "i128": 128, "w256": 256, "w512": 512, "w1024": 1024, "w2048": 2048, "w4096": 4096, "w8192": 8192}


def _bits_for_range(lo, hi):
    n = 1
    while lo < -(1 << (n - 1)) or hi >= (1 << (n - 1)):
        n += 1
    return n  # two's complement width


class E:
    __slots__ = ("c", "lo", "hi", "t")

    def __init__(self, c, lo, hi):
        self.c, self.lo, self.hi = c, lo, hi
        self.t = _ctype(lo, hi)

    def to(self, t):
        if self.t == t:
            return self.c
        return "((%s)%s)" % (t, self.c)


def _wider(*ts):
    return max(ts, key=lambda t: _TBITS[t])


def _const(v):
    if -(1 << 63) < v < (1 << 63):
        return E("%dLL" % v if v >= 0 else "(%dLL)" % v, v, v)
    t = _ctype(v, v)
    m = abs(v)
    parts = []
    sh = 0
    while m:
        parts.append("(((%s)%dULL)<<%d)" % (t, m & ((1 << 32) - 1), sh))
        m >>= 32
        sh += 32
    c = "(" + "|".join(parts) + ")"
    if v < 0:
        c = "(-%s)" % c
    return E(c, v, v)


def _mask_c(t, n):
    """C expression of type t with n low ones."""
    if n <= 62:
        return "%dLL" % ((1 << n) - 1) if t == "i64" else "((%s)%dLL)" % (t, (1 << n) - 1)
    if n == 63 and t == "i64":
        return "0x7fffffffffffffffLL"
    return "((((%s)1)<<%d)-1)" % (t, n)


def sig_range(s):
    n = s.nbits
    if s.signed:
        return -(1 << (n - 1)), (1 << (n - 1)) - 1
    return 0, (1 << n) - 1


def limbs(n):
    return (n + 63) // 64


class _SigCollector:
    def __init__(self, cds):
        self.cds = cds

    def expr(self, n, out):
        if isinstance(n, Constant):
            return
        if isinstance(n, Signal):
            out[n.duid] = n
        elif isinstance(n, _Operator):
            for o in n.operands:
                self.expr(o, out)
        elif isinstance(n, _Slice):
            self.expr(n.value, out)
        elif isinstance(n, _Part):
            self.expr(n.value, out)
            self.expr(n.offset, out)
        elif isinstance(n, Cat):
            for e in n.l:
                self.expr(e, out)
        elif isinstance(n, Replicate):
            self.expr(n.v, out)
        elif isinstance(n, _ArrayProxy):
            self.expr(n.key, out)
            for c in n.choices:
                self.expr(wrap_(c), out)
        elif isinstance(n, ClockSignal):
            s = self.cds[n.cd].clk
            out[s.duid] = s
        elif isinstance(n, ResetSignal):
            s = self.cds[n.cd].rst
            if s is not None:
                out[s.duid] = s
        elif isinstance(n, (int, bool)):
            return
        else:
            raise SimModelError("unknown node %r" % (n,))

    def targets(self, l, out):
        if isinstance(l, Signal):
            out[l.duid] = l
        elif isinstance(l, (_Slice, _Part)):
            self.targets(l.value, out)
        elif isinstance(l, Cat):
            for e in l.l:
                self.targets(e, out)
        elif isinstance(l, _ArrayProxy):
            for c in l.choices:
                self.targets(c, out)
        elif isinstance(l, ClockSignal):
            s = self.cds[l.cd].clk
            out[s.duid] = s
        elif isinstance(l, ResetSignal):
            s = self.cds[l.cd].rst
            out[s.duid] = s
        else:
            raise SimModelError("unknown lhs %r" % (l,))

    def lhs_inputs(self, l, out):
        if isinstance(l, _Part):
            self.expr(l.offset, out)
            self.lhs_inputs(l.value, out)
        elif isinstance(l, _Slice):
            self.lhs_inputs(l.value, out)
        elif isinstance(l, Cat):
            for e in l.l:
                self.lhs_inputs(e, out)
        elif isinstance(l, _ArrayProxy):
            self.expr(l.key, out)
            for c in l.choices:
                self.lhs_inputs(c, out)

    def stmts_targets(self, sl, out):
        for s in sl:
            if isinstance(s, _Assign):
                self.targets(s.l, out)
            elif isinstance(s, If):
                self.stmts_targets(s.t, out)
                self.stmts_targets(s.f, out)
            elif isinstance(s, Case):
                for k, v in s.cases.items():
                    self.stmts_targets(v, out)
            elif isinstance(s, (list, tuple)):
                self.stmts_targets(s, out)
            elif s is None or s.__class__.__name__ in ("Display", "Finish"):
                pass
            else:
                raise SimModelError("unknown statement %r" % (s,))
        return out

    def stmts_inputs(self, sl, out):
        for s in sl:
            if isinstance(s, _Assign):
                self.expr(s.r, out)
                self.lhs_inputs(s.l, out)
            elif isinstance(s, If):
                self.expr(s.cond, out)
                self.stmts_inputs(s.t, out)
                self.stmts_inputs(s.f, out)
            elif isinstance(s, Case):
                self.expr(s.test, out)
                for k, v in s.cases.items():
                    self.stmts_inputs(v, out)
            elif isinstance(s, (list, tuple)):
                self.stmts_inputs(s, out)
        return out


def wrap_(x):
    if isinstance(x, (int, bool)):
        return Constant(int(x))
    return x


def _flat(sl):
    for s in sl:
        if isinstance(s, (list, tuple)):
            yield from _flat(s)
        elif s is not None:
            yield s


PRELUDE = r"""
#include <stdint.h>
#include <string.h>
typedef int64_t i64; typedef uint64_t u64; typedef __int128 i128;
typedef _BitInt(256) w256; typedef _BitInt(512) w512;
typedef _BitInt(1024) w1024; typedef _BitInt(2048) w2048;
typedef _BitInt(4096) w4096; typedef _BitInt(8192) w8192;
#define SHR(T,a,b) ({ T _a=(a); u64 _b=(b); _b >= sizeof(T)*8 ? (_a<0?(T)-1:(T)0) : (T)(_a >> _b); })
#define SHL(T,a,b) ({ T _a=(a); u64 _b=(b); _b >= sizeof(T)*8 ? (T)0 : (T)(_a << _b); })
static inline u64 rng(u64 *s){ u64 x=*s; x^=x<<13; x^=x>>7; x^=x<<17; *s=x; return x*0x2545F4914F6CDD1DULL; }
"""


class Design:
    """A compiled design.  `mv` is the live state (Python memoryview of u64 limbs)."""

    MAXCLK = 16
    # control block layout (u64 limbs at the start of the buffer)
    C_TIME, C_RESUME, C_PRNG, C_METAW, C_METAN, C_EDGES, C_OSC, C_MASK, C_TEARN = range(9)
    C_NEXT = 16
    C_PERIOD = 32
    C_JITTER = 48   # +-jitter amplitude per edge
    C_PHASE = 64    # 1 when the next event is a falling edge
    C_BASE = 80     # ideal (unjittered) next time
    C_COUNT = 96    # rising edges so far
    C_SIZE = 128

    def __init__(self, module, instance_models=None, keep=(), opt="-O1", unrelated=()):
        """unrelated: groups of clock domains; registers of one group that reach registers of another without a synchroniser
        may tear (each bit old or new) when they changed within the metastability window before the sampling edge"""
        self.unrelated = unrelated
        ctx = self.ctx = LowerCtx()
        self.module = module
        f = module.get_fragment()
        ctx.cds = f.clock_domains
        f, _ = lower_specials(_overrides(ctx, instance_models or {}), f)
        self._prepare(f, keep)
        src = self._generate()
        self.src_hash = hashlib.sha256((src + opt).encode()).hexdigest()[:24]
        self._load(src, opt)

    # -- preparation -----------------------------------------------------------------
    def _prepare(self, f, keep):
        self.f = f
        # every domain that is mentioned must exist
        names = set()

        class L:
            pass
        from migen.fhdl.tools import list_clock_domains
        names = list_clock_domains(f)
        for n in sorted(names):
            try:
                f.clock_domains[n]
            except KeyError:
                f.clock_domains.append(ClockDomain(n))
        self.cds = f.clock_domains
        insert_resets(f)
        self.col = _SigCollector(self.cds)
        comb = list(_flat(f.comb))
        self.mems = [s for s in sorted(f.specials, key=lambda x: x.duid) if isinstance(s, Memory)]
        left = [s for s in f.specials if not isinstance(s, (Memory, _MemoryPort))]
        if left:
            raise SimModelError("unlowered specials: %r" % left)

        # ---- comb projection per target
        self.comb_targets = {}
        for st in comb:
            for d, s in self.col.stmts_targets([st], {}).items():
                self.comb_targets.setdefault(d, (s, []))[1].append(st)
        # ---- sync per domain
        self.sync_targets = {}   # duid -> (sig, domain)
        for cdn in sorted(f.sync):
            for d, s in self.col.stmts_targets(_flat(f.sync[cdn]), {}).items():
                if d in self.sync_targets and self.sync_targets[d][1] != cdn:
                    raise SimModelError("signal %s driven from two domains" % s.backtrace)
                self.sync_targets[d] = (s, cdn)
        # ---- memories
        self.memports = []
        for m in self.mems:
            for p in m.ports:
                self.memports.append((m, p))
        self.memcomb = {}    # duid of dat_r -> (mem, port, adrreg or None)
        self.memsync = []    # (mem, port, kind, adr_reg)
        for m, p in self.memports:
            cdn = p.clock.cd
            if p.async_read:
                self.memcomb[p.dat_r.duid] = (m, p, p.adr)
            elif p.mode == WRITE_FIRST:
                ar = Signal(max=max(m.depth, 2), reset_less=True)
                self.sync_targets[ar.duid] = (ar, cdn)
                self.memcomb[p.dat_r.duid] = (m, p, ar)
                self.memsync.append((m, p, "adr", ar, cdn))
            else:
                self.sync_targets[p.dat_r.duid] = (p.dat_r, cdn)
                self.memsync.append((m, p, "data", None, cdn))
        both = set(self.comb_targets) & set(self.sync_targets)
        if both:
            raise SimModelError("comb and sync drivers: %r" % [self.comb_targets[d][0].backtrace for d in both])

        # ---- all signals
        sigs = {}
        self.col.stmts_inputs(comb, sigs)
        self.col.stmts_targets(comb, sigs)
        for cdn in f.sync:
            self.col.stmts_inputs(f.sync[cdn], sigs)
            self.col.stmts_targets(f.sync[cdn], sigs)
        for m, p in self.memports:
            for a in ("adr", "dat_r", "we", "dat_w", "re"):
                e = getattr(p, a)
                if e is not None:
                    self.col.expr(e, sigs)
        for d, (s, c) in self.sync_targets.items():
            sigs[d] = s
        for s in list(keep) + self.ctx.extra:
            sigs[s.duid] = s
        for cd in self.cds:
            sigs[cd.clk.duid] = cd.clk
            if cd.rst is not None:
                sigs[cd.rst.duid] = cd.rst
        self.sigs = dict(sorted(sigs.items()))

        # ---- clock roots
        self.roots = []           # names
        self.root_sig = []        # signal
        self.domain_root = {}
        rootidx = {}
        doms = sorted(set(f.sync) | {p.clock.cd for m, p in self.memports} | {cd.name for cd in self.cds})
        for cdn in doms:
            s = self._resolve_clk(self.cds[cdn].clk)
            if s.duid not in rootidx:
                rootidx[s.duid] = len(self.roots)
                nm = self.ctx.named_roots.get(s.duid)
                if nm is None:
                    owners = [cd.name for cd in self.cds if cd.clk is s]
                    nm = owners[0] if owners else "clk%d" % len(self.roots)
                self.roots.append(nm)
                self.root_sig.append(s)
            self.domain_root[cdn] = rootidx[s.duid]
        if len(self.roots) > self.MAXCLK:
            raise SimModelError("too many clocks")
        # clock signals used as data need falling edges too
        used = {}
        for d, (s, sts) in self.comb_targets.items():
            if any(s is cd.clk for cd in self.cds):
                continue
            self.col.stmts_inputs(sts, used)
        for cdn in f.sync:
            self.col.stmts_inputs(f.sync[cdn], used)
        self.clk_data = set()
        for i, s in enumerate(self.root_sig):
            for cd in self.cds:
                if self.domain_root.get(cd.name) == i and cd.clk.duid in used:
                    self.clk_data.add(i)
            if s.duid in used:
                self.clk_data.add(i)

    def _resolve_clk(self, s, depth=0):
        if depth > 50:
            raise SimModelError("clock loop")
        if s.duid in self.ctx.named_roots:
            return s
        if s.duid in self.comb_targets:
            sts = self.comb_targets[s.duid][1]
            last = sts[-1]
            if len(sts) == 1 and isinstance(last, _Assign):
                r = last.r
                if isinstance(r, Signal):
                    return self._resolve_clk(r, depth + 1)
                if isinstance(r, ClockSignal):
                    return self._resolve_clk(self.cds[r.cd].clk, depth + 1)
            raise SimModelError("unsupported clock driver for %s" % (s.backtrace,))
        return s

    # -- code generation ---------------------------------------------------------------
    def _layout(self):
        pos = self.C_SIZE
        self.off = {}
        order = []
        nroots = len(self.roots)
        self.sync_range = {}
        for r in range(nroots):
            a = pos
            for d, s in self.sigs.items():
                if d in self.sync_targets and self.domain_root[self.sync_targets[d][1]] == r:
                    self.off[d] = pos
                    pos += limbs(s.nbits)
            self.sync_range[r] = (a, pos)
        a = pos
        for d, s in self.sigs.items():
            if d in self.comb_targets or d in self.memcomb:
                self.off[d] = pos
                pos += limbs(s.nbits)
        self.comb_range = (a, pos)
        a = pos
        for d, s in self.sigs.items():
            if d not in self.off:
                self.off[d] = pos
                pos += limbs(s.nbits)
        self.in_range = (a, pos)
        self.sig_end = pos
        # shadows
        self.n_delta = pos - self.C_SIZE      # next-state area mirrors the signal area
        pos = pos + (self.sig_end - self.C_SIZE)
        self.memoff = {}
        for m in self.mems:
            self.memoff[m.duid] = pos
            pos += m.depth * limbs(m.width)
        # memory write pending slots: [mask limb(s) data limb(s) adr]
        self.wpend = {}
        for i, (m, p) in enumerate(self.memports):
            if p.we is not None:
                self.wpend[i] = pos
                pos += 2 + 2 * limbs(m.width)
        self.metaoff = pos
        pos += 3 * len(self.ctx.metas)
        # unsynchronised crossings: {limb: (previous value, time of change)}
        self.cross = self._crossings() if self.unrelated else {}
        self.crossoff = {}
        for o in sorted({o for v in self.cross.values() for o, s in v}):
            self.crossoff[o] = pos
            pos += 2
        self.crosssave = pos
        pos += 2 * max([len(v) for v in self.cross.values()] + [0])
        self.total = pos

    def _crossings(self):
        """per destination root: the limbs of unrelated registers its next state depends on directly"""
        group = {}
        for g, names in enumerate(self.unrelated):
            for n in names:
                if n in self.domain_root:
                    group[self.domain_root[n]] = g
                elif n in self.roots:
                    group[self.roots.index(n)] = g
        stop = {isig.duid for isig, mask, prev, dom in self.ctx.metas}
        out = {}
        for r in sorted(group):
            todo = {}
            for cdn in sorted(self.f.sync):
                if self.domain_root[cdn] == r:
                    self.col.stmts_inputs(list(_flat(self.f.sync[cdn])), todo)
            for m, p in self.memports:
                if self.domain_root[p.clock.cd] == r and not (p.async_read and p.we is None):
                    for a in ("adr", "we", "dat_w", "re"):
                        e = getattr(p, a)
                        if e is not None:
                            self.col.expr(e, todo)
            seen, work, found = set(), sorted(todo), {}
            while work:
                d = work.pop()
                if d in seen or d in stop:
                    continue
                seen.add(d)
                if d in self.sync_targets:
                    s, cdn = self.sync_targets[d]
                    q = self.domain_root[cdn]
                    if q != r and q in group and group[q] != group[r] and not s.signed:
                        found[d] = s
                    continue
                inp = {}
                if d in self.memcomb:
                    self.col.expr(self.memcomb[d][2], inp)
                elif d in self.comb_targets:
                    self._project_inputs(self.comb_targets[d][1], d, inp)
                work += sorted(inp)
            if found:
                out[r] = [(self.off[d] + i, s) for d, s in sorted(found.items()) for i in range(limbs(s.nbits))]
        return out

    def _ld(self, s, base="S", post=None):
        off = self.off[s.duid]
        lo, hi = sig_range(s)
        n = s.nbits
        if post is not None and s.duid in post:
            return E(post[s.duid], lo, hi)
        if n <= 63 or (s.signed and n == 64):
            return E("((i64)%s[%d])" % (base, off), lo, hi)
        t = _ctype(lo, hi)
        c = "|".join("(((%s)%s[%d])<<%d)" % (t, base, off + i, 64 * i) for i in range(limbs(n)))
        if s.signed:
            # sign extend
            tb = _TBITS[t]
            c = "((%s)((%s)<<%d)>>%d)" % (t, c, tb - n, tb - n)
        return E("(" + c + ")", lo, hi)

    def _st(self, s, cexpr, base="S"):
        """store an already truncated value of the signal's C type"""
        off = self.off[s.duid]
        n = s.nbits
        if n <= 63 or (s.signed and n == 64):
            return "%s[%d]=(u64)(%s);" % (base, off, cexpr)
        t = _ctype(*sig_range(s))
        return "{%s _v=%s;%s}" % (t, cexpr, "".join(
            "%s[%d]=(u64)(_v>>%d);" % (base, off + i, 64 * i) for i in range(limbs(n))))

    def _trunc(self, e, nbits, signed):
        """E truncated to nbits"""
        if signed:
            lo, hi = -(1 << (nbits - 1)), (1 << (nbits - 1)) - 1
        else:
            lo, hi = 0, (1 << nbits) - 1
        if e.lo >= lo and e.hi <= hi:
            return E(e.to(_ctype(lo, hi)), lo, hi)
        rt = _ctype(lo, hi)
        t = _wider(rt, e.t)
        c = e.to(t)
        if not signed:
            return E("((%s)(%s&%s))" % (rt, c, _mask_c(t, nbits)), lo, hi)
        tb = _TBITS[t]
        if t == "i64":
            return E("((i64)((u64)(%s)<<%d)>>%d)" % (c, 64 - nbits, 64 - nbits), lo, hi)
        return E("((%s)((%s)(%s<<%d)>>%d))" % (rt, t, c, tb - nbits, tb - nbits), lo, hi)

    def _cond(self, n):
        e = self.ex(n)
        w = len(n)
        if e.lo < 0:
            e = self._trunc(e, w, False)
        return "(%s!=0)" % e.c

    def ex(self, n, post=None):
        if isinstance(n, (bool, int)):
            return _const(int(n))
        if isinstance(n, Constant):
            return _const(n.value)
        if isinstance(n, Signal):
            return self._ld(n, post=post)
        if isinstance(n, ClockSignal):
            return self._ld(self.cds[n.cd].clk)
        if isinstance(n, ResetSignal):
            r = self.cds[n.cd].rst
            if r is None:
                if n.allow_reset_less:
                    return _const(0)
                raise SimModelError("reset of resetless domain " + n.cd)
            return self._ld(r)
        if isinstance(n, _Operator):
            return self._op(n, post)
        if isinstance(n, _Slice):
            v = self.ex(n.value, post)
            w = n.stop - n.start
            if n.start:
                v = E("(%s>>%d)" % (v.c, n.start) if n.start < _TBITS[v.t] else "0LL",
                      v.lo >> n.start, v.hi >> n.start) if _ctype(v.lo >> n.start, v.hi >> n.start) == v.t \
                    else E("((%s)(%s>>%d))" % (_ctype(v.lo >> n.start, v.hi >> n.start), v.c,
                                               min(n.start, _TBITS[v.t] - 1)),
                           v.lo >> n.start, v.hi >> n.start)
            return self._trunc(v, w, False)
        if isinstance(n, _Part):
            v = self.ex(n.value, post)
            o = self.ex(n.offset, post)
            s = E("SHR(%s,%s,%s)" % (v.t, v.c, o.to("i64")), min(v.lo, 0), max(v.hi, 0))
            return self._trunc(s, n.width, False)
        if isinstance(n, Cat):
            tot = len(n)
            if tot == 0:
                return _const(0)
            hi = (1 << tot) - 1
            t = _ctype(0, hi)
            parts = []
            sh = 0
            for e in n.l:
                w = len(e)
                x = self._trunc(self.ex(e, post), w, False)
                parts.append("(%s<<%d)" % (x.to(t), sh) if sh else x.to(t))
                sh += w
            return E("(" + "|".join(parts) + ")", 0, hi)
        if isinstance(n, Replicate):
            w = len(n.v)
            tot = w * n.n
            hi = (1 << tot) - 1
            t = _ctype(0, hi)
            x = self._trunc(self.ex(n.v, post), w, False)
            return E("({%s _r=%s;%s;})" % (t, x.to(t), "|".join("(_r<<%d)" % (i * w) for i in range(n.n))), 0, hi)
        if isinstance(n, _ArrayProxy):
            k = self.ex(n.key, post)
            ch = [self.ex(wrap_(c), post) for c in n.choices]
            lo, hi = min(c.lo for c in ch), max(c.hi for c in ch)
            t = _ctype(lo, hi)
            code = "({i64 _k=%s; %s _r; switch(_k){" % (k.to("i64"), t)
            for i, c in enumerate(ch[:-1]):
                code += "case %d:_r=%s;break;" % (i, c.to(t))
            code += "default:_r=%s;} _r;})" % ch[-1].to(t)
            return E(code, lo, hi)
        raise SimModelError("unknown expression %r" % (n,))

    def _op(self, n, post):
        op = n.op
        if op == "m":
            c = self._cond_post(n.operands[0], post)
            a, b = self.ex(n.operands[1], post), self.ex(n.operands[2], post)
            lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
            t = _ctype(lo, hi)
            return E("(%s?%s:%s)" % (c, a.to(t), b.to(t)), lo, hi)
        a = self.ex(n.operands[0], post)
        if op == "~":
            return E("(~%s)" % a.c, ~a.hi, ~a.lo) if _ctype(~a.hi, ~a.lo) == a.t else \
                E("(~%s)" % a.to(_ctype(~a.hi, ~a.lo)), ~a.hi, ~a.lo)
        if op == "-" and len(n.operands) == 1:
            lo, hi = -a.hi, -a.lo
            t = _wider(_ctype(lo, hi), a.t)
            return E("((%s)(-%s))" % (_ctype(lo, hi), a.to(t)), lo, hi)
        b = self.ex(n.operands[1], post)
        if op in ("<", "<=", "==", "!=", ">", ">="):
            t = _wider(a.t, b.t)
            return E("((i64)(%s%s%s))" % (a.to(t), op, b.to(t)), 0, 1)
        if op in ("+", "-", "*"):
            if op == "+":
                lo, hi = a.lo + b.lo, a.hi + b.hi
            elif op == "-":
                lo, hi = a.lo - b.hi, a.hi - b.lo
            else:
                ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
                lo, hi = min(ps), max(ps)
            rt = _ctype(lo, hi)
            t = _wider(rt, a.t, b.t)
            c = "(%s%s%s)" % (a.to(t), op, b.to(t))
            return E(c if t == rt else "((%s)%s)" % (rt, c), lo, hi)
        if op in ("&", "|", "^"):
            if op == "&" and a.lo >= 0 and b.lo >= 0:
                lo, hi = 0, min(a.hi, b.hi)
            elif op == "&" and (a.lo >= 0 or b.lo >= 0):
                lo, hi = 0, (a.hi if a.lo >= 0 else b.hi)
            elif a.lo >= 0 and b.lo >= 0:
                lo, hi = 0, (1 << max(a.hi, b.hi).bit_length()) - 1
            else:
                w = max(_bits_for_range(a.lo, a.hi), _bits_for_range(b.lo, b.hi))
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            rt = _ctype(lo, hi)
            t = _wider(rt, a.t, b.t)
            c = "(%s%s%s)" % (a.to(t), op, b.to(t))
            return E(c if t == rt else "((%s)%s)" % (rt, c), lo, hi)
        if op in (">>>", "<<<"):
            # A negative shift amount is what hardware sees as an unsigned number of the
            # operand's own width.
            if b.lo < 0:
                b = self._trunc(b, len(n.operands[1]), False)
            if op == ">>>":
                lo, hi = min(a.lo, a.lo >> b.lo), max(a.hi, 0)
                if a.lo < 0:
                    hi = max(a.hi, -1)
                if b.lo == b.hi:
                    lo, hi = a.lo >> b.lo, a.hi >> b.lo
                if a.lo >= 0:
                    lo = 0
                rt = _ctype(lo, hi)
                c = "SHR(%s,%s,%s)" % (a.t, a.c, b.to("u64"))
                return E(c if rt == a.t else "((%s)%s)" % (rt, c), lo, hi)
            bh = b.hi
            if bh > 1500:
                raise SimModelError("shift too wide")
            lo, hi = min(a.lo << bh, a.lo, 0), max(a.hi << bh, a.hi, 0)
            rt = _ctype(lo, hi)
            t = _wider(rt, a.t)
            c = "SHL(%s,%s,%s)" % (t, a.to(t), b.to("u64"))
            return E(c if t == rt else "((%s)%s)" % (rt, c), lo, hi)
        raise SimModelError("unknown operator " + op)

    def _cond_post(self, n, post):
        e = self.ex(n, post)
        if e.lo < 0:
            e = self._trunc(e, len(n), False)
        return "(%s!=0)" % e.c

    # -- statements: `env` maps duid -> ("local", name) or ("next",)
    def _assign(self, l, e, env, out):
        if isinstance(l, ClockSignal):
            l = self.cds[l.cd].clk
        elif isinstance(l, ResetSignal):
            l = self.cds[l.cd].rst
        if isinstance(l, Signal):
            if l.duid not in env:
                return
            t = self._trunc(e, l.nbits, l.signed)
            if env[l.duid] is None:
                out.append(self._st(l, t.to(_ctype(*sig_range(l))), "N"))
            else:
                out.append("%s=%s;" % (env[l.duid], t.to(_ctype(*sig_range(l)))))
        elif isinstance(l, Cat):
            if not self._touches(l, env):
                return
            self._tmp += 1
            nm = "t%d" % self._tmp
            out.append("{%s %s=%s;" % (e.t, nm, e.c))
            sh = 0
            for el in l.l:
                w = len(el)
                if self._touches(el, env):
                    tb = _TBITS[e.t]
                    if sh >= tb:
                        part = E("(%s<0?-1LL:0LL)" % nm, -1, 0)
                    else:
                        part = E("((%s)(%s>>%d))" % (_ctype(e.lo >> sh, e.hi >> sh), nm, sh),
                                 e.lo >> sh, e.hi >> sh)
                    self._assign(el, self._trunc(part, w, False), env, out)
                sh += w
            out.append("}")
        elif isinstance(l, _Slice):
            if not self._touches(l, env):
                return
            w = l.stop - l.start
            full = self._trunc(self._rd_post(l.value, env), len(l.value), False)
            t = full.t
            part = self._trunc(e, w, False)
            m = _mask_c(t, w)
            c = "((%s&~(%s<<%d))|(%s<<%d))" % (full.c, m, l.start, part.to(t), l.start)
            self._assign(l.value, E(c, full.lo, full.hi), env, out)
        elif isinstance(l, _Part):
            if not self._touches(l, env):
                return
            full = self._trunc(self._rd_post(l.value, env), len(l.value), False)
            nb = len(l.value) + l.width + 1
            t = _ctype(0, (1 << nb) - 1)
            o = self.ex(l.offset)
            part = self._trunc(e, l.width, False)
            m = _mask_c(t, l.width)
            c = "({u64 _o=%s; _o>%d?%s:((%s&~(%s<<_o))|(%s<<_o));})" % (
                o.to("u64"), len(l.value), full.to(t), full.to(t), m, part.to(t))
            self._assign(l.value, E(c, 0, (1 << nb) - 1), env, out)
        elif isinstance(l, _ArrayProxy):
            if not self._touches(l, env):
                return
            self._tmp += 1
            nm = "t%d" % self._tmp
            out.append("{%s %s=%s; switch((i64)%s){" % (e.t, nm, e.c, self.ex(l.key).to("i64")))
            for i, c in enumerate(l.choices):
                out.append("default:" if i == len(l.choices) - 1 else "case %d:" % i)
                self._assign(c, E(nm, e.lo, e.hi), env, out)
                out.append("break;")
            out.append("}}")
        else:
            raise SimModelError("bad lhs %r" % (l,))

    def _touches(self, l, env):
        t = {}
        self.col.targets(l, t)
        return any(d in env for d in t)

    def _rd_post(self, l, env):
        """Read an lvalue with already-performed assignments visible."""
        if isinstance(l, Signal):
            if l.duid in env:
                if env[l.duid] is None:
                    return self._ld(l, "N")
                lo, hi = sig_range(l)
                return E(env[l.duid], lo, hi)
            return self._ld(l)
        post = {d: v for d, v in env.items() if v is not None}
        if any(v is None for v in env.values()):
            # sync context: nested slice of a non-signal; read through N
            save = self._ld

            def ld(s, base="S", post=None):
                return save(s, "N" if s.duid in env else "S")
            self._ld = ld
            try:
                return self.ex(l)
            finally:
                self._ld = save
        return self.ex(l, post)

    def _stmts(self, sl, env, out):
        for s in sl:
            if isinstance(s, _Assign):
                if self._touches(s.l, env):
                    self._assign(s.l, self.ex(s.r), env, out)
            elif isinstance(s, If):
                tt = any(d in env for d in self.col.stmts_targets(s.t, {}))
                ff = any(d in env for d in self.col.stmts_targets(s.f, {}))
                if not tt and not ff:
                    continue
                out.append("if%s{" % self._cond(s.cond))
                self._stmts(s.t, env, out)
                if ff:
                    out.append("}else{")
                    self._stmts(s.f, env, out)
                out.append("}")
            elif isinstance(s, Case):
                if not any(d in env for d in self.col.stmts_targets([s], {})):
                    continue
                nb, sg = value_bits_sign(s.test)
                te = self._trunc(self.ex(s.test), nb, sg)
                if te.t != "i64":
                    raise SimModelError("wide case")
                out.append("switch(%s){" % te.c)
                seen = set()
                for k, v in s.cases.items():
                    if isinstance(k, str):
                        continue
                    kv = k.value if isinstance(k, Constant) else int(k)
                    if kv in seen:
                        continue
                    seen.add(kv)
                    out.append("case %dLL:" % kv)
                    self._stmts(v, env, out)
                    out.append("break;")
                if "default" in s.cases:
                    out.append("default:")
                    self._stmts(s.cases["default"], env, out)
                    out.append("break;")
                out.append("}")
            elif isinstance(s, (list, tuple)):
                self._stmts(s, env, out)

    def _project_inputs(self, sl, duid, out):
        """signals read by the statements that can assign `duid`"""
        for s in sl:
            if isinstance(s, _Assign):
                t = {}
                self.col.targets(s.l, t)
                if duid in t:
                    self.col.expr(s.r, out)
                    self.col.lhs_inputs(s.l, out)
                    for d in t:
                        if d != duid and isinstance(s.l, (_Slice, _Part)):
                            out[d] = t[d]
            elif isinstance(s, If):
                if duid in self.col.stmts_targets([s], {}):
                    self.col.expr(s.cond, out)
                    self._project_inputs(s.t, duid, out)
                    self._project_inputs(s.f, duid, out)
            elif isinstance(s, Case):
                if duid in self.col.stmts_targets([s], {}):
                    self.col.expr(s.test, out)
                    for v in s.cases.values():
                        self._project_inputs(v, duid, out)
            elif isinstance(s, (list, tuple)):
                self._project_inputs(s, duid, out)

    def _mem_read(self, m, adr_e):
        """C expression reading memory word at address expression (clamped)"""
        nl = limbs(m.width)
        base = self.memoff[m.duid]
        lo, hi = 0, (1 << m.width) - 1
        t = _ctype(lo, hi)
        idx = "({u64 _a=%s; _a>=%d?%d:_a;})" % (adr_e.to("u64"), m.depth, m.depth - 1)
        if nl == 1:
            return E("((%s)S[%d+%s])" % (t, base, idx), lo, hi)
        return E("({u64 *_p=S+%d+%d*%s; %s;})" % (base, nl, idx, "|".join(
            "(((%s)_p[%d])<<%d)" % (t, i, 64 * i) for i in range(nl))), lo, hi)

    def _generate(self):
        self._tmp = 0
        self._layout()
        o = [PRELUDE]
        # ---- comb nodes
        nodes = {}
        deps = {}
        for d, (s, sts) in self.comb_targets.items():
            if any(s is cd.clk for cd in self.cds) and d not in self.ctx.named_roots and \
               not (self.clk_data):
                # clock aliases are resolved structurally
                deps[d] = {}
                nodes[d] = None
                continue
            body = []
            nm = "v"
            t = _ctype(*sig_range(s))
            self._stmts(sts, {d: nm}, body)
            inp = {}
            self._project_inputs(sts, d, inp)
            deps[d] = inp
            nodes[d] = (s, "%s %s=%s;" % (t, nm, self._reset_c(s, t)) + "".join(body))
        for d, (m, p, adr) in self.memcomb.items():
            s = p.dat_r
            inp = {}
            self.col.expr(adr, inp)
            t = _ctype(*sig_range(s))
            e = self._trunc(self._mem_read(m, self.ex(adr)), s.nbits, False)
            nodes[d] = (s, "%s v=%s;" % (t, e.to(t)))
            deps[d] = inp
        order = self._scc(nodes, deps)
        self.n_scc = 0
        chunks = []
        for comp in order:
            loop = len(comp) > 1 or comp[0] in deps[comp[0]]
            if not loop:
                if nodes[comp[0]] is None:
                    continue
                s, code = nodes[comp[0]]
                chunks.append("{" + code + self._st(s, "v") + "}")
            else:
                self.n_scc += 1
                comp = sorted(comp, key=lambda d: self.off[d])
                code = "{int _it=0,_ch; do{_ch=0;"
                for d in comp:
                    if nodes[d] is None:
                        continue
                    s, body = nodes[d]
                    code += "{" + body + "if(!(%s==v)){_ch=1;%s}}" % (self._ld(s).to(_ctype(*sig_range(s))), self._st(s, "v"))
                code += "}while(_ch && ++_it<%d); if(_ch) S[%d]=1;}" % (64 + 4 * len(comp), self.C_OSC)
                chunks.append(code)
        # split into functions to keep compile times reasonable
        fns = []
        for i in range(0, len(chunks), 200):
            fns.append("static void comb%d(u64 *restrict S){%s}" % (len(fns), "\n".join(chunks[i:i + 200])))
        o += fns
        meta = []
        for i, (isig, mask, prev, dom) in enumerate(self.ctx.metas):
            mo = self.metaoff + 3 * i
            m_ = (1 << isig.nbits) - 1
            meta.append("{u64 c=S[%d]&%dULL; if(c!=S[%d]){S[%d]=S[%d];S[%d]=c;S[%d]=S[%d];}}" % (
                self.off[isig.duid], m_, mo, mo + 1, mo, mo, mo + 2, self.C_TIME))
        o.append("static void track(u64 *S){%s}" % "\n".join(meta))
        o.append("int settle(u64 *S){%s track(S); return (int)S[%d];}" % (
            "".join("comb%d(S);" % i for i in range(len(fns))), self.C_OSC))
        # ---- sync
        wports = {}
        for i, (m, p) in enumerate(self.memports):
            if p.we is not None:
                wports.setdefault(self.domain_root[p.clock.cd], []).append((i, m, p))
        for r in range(len(self.roots)):
            a, b = self.sync_range[r]
            nd = self.n_delta
            body = []
            if b > a:
                body.append("memcpy(S+%d,S+%d,%d);" % (a + nd, a, 8 * (b - a)))
            # metastability
            ms = []
            for i, (isig, mask, prev, dom) in enumerate(self.ctx.metas):
                if self.domain_root[dom] != r:
                    continue
                mo = self.metaoff + 3 * i
                mk, pv = self.off[mask.duid], self.off[prev.duid]
                ms.append("S[%d]=0; if(S[%d] && S[%d]-S[%d] < S[%d] && S[%d]){u64 r=rng(S+%d); "
                          "u64 d=(S[%d]^S[%d]); S[%d]=r&d; S[%d]=S[%d]; S[%d]+=(S[%d]!=0);}" % (
                              mk, self.C_METAW, self.C_TIME, mo + 2, self.C_METAW, mo + 2, self.C_PRNG,
                              mo, mo + 1, mk, pv, mo + 1, self.C_METAN, mk))
            body += ms
            stm = []
            for cdn in sorted(self.f.sync):
                if self.domain_root[cdn] != r:
                    continue
                env = {d: None for d, (s, c) in self.sync_targets.items() if c == cdn}
                self._stmts(list(_flat(self.f.sync[cdn])), env, stm)
            for m, p, kind, ar, cdn in self.memsync:
                if self.domain_root[cdn] != r:
                    continue
                c = []
                if kind == "adr":
                    c.append(self._st(ar, self._trunc(self.ex(p.adr), ar.nbits, False).c, "N"))
                else:
                    v = self._trunc(self._mem_read(m, self.ex(p.adr)), p.dat_r.nbits, False)
                    c.append(self._st(p.dat_r, v.to(_ctype(*sig_range(p.dat_r))), "N"))
                    if p.mode == NO_CHANGE and p.we is not None:
                        c = ["if(!%s){" % self._cond(p.we)] + c + ["}"]
                if p.re is not None:
                    c = ["if%s{" % self._cond(p.re)] + c + ["}"]
                stm += c
            for i, m, p in wports.get(r, []):
                wp = self.wpend[i]
                nl = limbs(m.width)
                t = _ctype(0, (1 << m.width) - 1)
                dw = self._trunc(self.ex(p.dat_w), m.width, False)
                stm.append("{S[%d]=0; u64 _we=%s; if(_we){S[%d]=1; S[%d]=%s; %s _d=%s; %s _m=0;" % (
                    wp, self._trunc(self.ex(p.we), len(p.we), False).to("u64"), wp, wp + 1, self.ex(p.adr).to("u64"),
                    t, dw.to(t), t))
                if p.we_granularity:
                    for g in range(m.width // p.we_granularity):
                        stm.append("if((_we>>%d)&1) _m|=(%s<<%d);" % (g, _mask_c(t, p.we_granularity), g * p.we_granularity))
                else:
                    stm.append("_m=%s;" % _mask_c(t, m.width))
                for k in range(nl):
                    stm.append("S[%d]=(u64)(_m>>%d);S[%d]=(u64)(_d>>%d);" % (wp + 2 + k, 64 * k, wp + 2 + nl + k, 64 * k))
                stm.append("}}")
            # `N` has the same indices as S
            body.append("u64 *N=S+%d;" % nd)
            # split statements into sub functions is unnecessary at -O1
            body += stm
            o.append("static void ev%d(u64 *restrict S){%s (void)N;}" % (r, "\n".join(body)))
            cm = []
            for x, px in sorted(self.crossoff.items()):
                if a <= x < b:
                    cm.append("if(S[%d]!=S[%d]){S[%d]=S[%d];S[%d]=S[%d];}" % (x, x + nd, px, x, px + 1, self.C_TIME))
            if b > a:
                cm.append("memcpy(S+%d,S+%d,%d);" % (a, a + nd, 8 * (b - a)))
            for i, m, p in wports.get(r, []):
                wp = self.wpend[i]
                nl = limbs(m.width)
                cm.append("if(S[%d] && S[%d]<%d){u64 *q=S+%d+%d*S[%d];%s}" % (
                    wp, wp + 1, m.depth, self.memoff[m.duid], nl, wp + 1,
                    "".join("q[%d]=(q[%d]&~S[%d])|(S[%d]&S[%d]);" % (k, k, wp + 2 + k, wp + 2 + nl + k, wp + 2 + k)
                            for k in range(nl))))
            o.append("static void cm%d(u64 *S){%s}" % (r, "\n".join(cm)))
        n = len(self.roots)
        o.append("static void settle0(u64 *S){%s}" % "".join("comb%d(S);" % i for i in range(len(fns))))
        for r, l in sorted(self.cross.items()):
            t, u = [], []
            for i, (x, s) in enumerate(l):
                px = self.crossoff[x]
                sv = self.crosssave + 2 * i
                t.append("S[%d]=S[%d]; if(S[%d] && S[%d]-S[%d]<S[%d]) {u64 d=rng(S+%d)&(S[%d]^S[%d]); if(d){S[%d]^=d; n=1;}}" % (
                    sv, x, px + 1, self.C_TIME, px + 1, self.C_METAW, self.C_PRNG, x, px, x))
                u.append("S[%d]=S[%d];" % (x, sv))
            o.append("static int tear%d(u64 *S){int n=0;%s S[%d]+=n; return n;}" % (r, "\n".join(t), self.C_TEARN))
            o.append("static void untear%d(u64 *S){%s}" % (r, "".join(u)))
        o.append("static void inputs(u64 *S){memcpy(S+%d,S+%d,%d);}" % (
            self.in_range[0], self.in_range[0] + self.n_delta, 8 * (self.in_range[1] - self.in_range[0])))
        o.append("int apply(u64 *S){inputs(S); return settle(S);}")
        o.append("static void fire(u64 *S, u64 mask, u64 fmask){")
        for r in range(n):
            if r in self.cross:
                o.append("if(mask&%d) {if(S[%d] && tear%d(S)) {settle0(S); ev%d(S); untear%d(S); settle0(S);} else ev%d(S);}" % (
                    1 << r, self.C_METAW, r, r, r, r))
            else:
                o.append("if(mask&%d) ev%d(S);" % (1 << r, r))
        for r in range(n):
            o.append("if(mask&%d) cm%d(S);" % (1 << r, r))
        o.append("inputs(S);")
        for r in sorted(self.clk_data):
            k = self.off[self.root_sig[r].duid]
            o.append("if(mask&%d) {S[%d]=1;S[%d]=1;} if(fmask&%d) {S[%d]=0;S[%d]=0;}" % (
                1 << r, k, k + self.n_delta, 1 << r, k, k + self.n_delta))
        o.append("S[%d]++; settle(S);}" % self.C_EDGES)
        clkdata = sum(1 << r for r in self.clk_data)
        o.append(r"""
/* advance simulated time; returns pre-edge mask when a broken-on clock is about to rise,
   0 when `until` was reached */
u64 run(u64 *S, u64 until, u64 brk){
  for(;;){
    u64 t=~0ULL; int i;
    for(i=0;i<%(n)d;i++) if(S[%(PER)d+i] && S[%(NEXT)d+i]<t) t=S[%(NEXT)d+i];
    if(t>=until){ S[%(TIME)d]=until; return 0; }
    u64 m=0,f=0;
    for(i=0;i<%(n)d;i++) if(S[%(PER)d+i] && S[%(NEXT)d+i]==t){ if(S[%(PH)d+i]) f|=1ULL<<i; else m|=1ULL<<i; }
    S[%(TIME)d]=t;
    if((m&brk) && !S[%(RES)d]){ S[%(RES)d]=1; S[%(MASK)d]=m; return m; }
    S[%(RES)d]=0;
    fire(S,m,f);
    if(S[%(OSC)d]) return ~0ULL;
    for(i=0;i<%(n)d;i++) if((m|f)>>i&1){
      u64 per=S[%(PER)d+i], j=S[%(JIT)d+i];
      if((%(CD)dULL>>i)&1){
        if(m>>i&1){ S[%(PH)d+i]=1; S[%(NEXT)d+i]=t+per/2; S[%(CNT)d+i]++; S[%(BASE)d+i]+=per; continue; }
        S[%(PH)d+i]=0;
      } else { S[%(CNT)d+i]++; S[%(BASE)d+i]+=per; }
      u64 nt=S[%(BASE)d+i];
      if(j) nt += rng(S+%(PRNG)d)%%(j+1);
      if(nt<=t) nt=t+1;
      S[%(NEXT)d+i]=nt;
    }
  }
}
/* run `count` rising edges of clock c with no Python involvement, capturing signals
   (pre-edge values, one limb each) */
u64 bulk(u64 *S, int c, u64 count, const int *cap, int ncap, u64 *out){
  u64 k=0;
  while(k<count){
    u64 m=run(S,~0ULL,1ULL<<c);
    if(m==~0ULL) return ~0ULL;
    if(m==0) return k;
    for(int i=0;i<ncap;i++) *out++=S[cap[i]];
    k++;
  }
  return k;
}
""" % dict(n=n, PER=self.C_PERIOD, NEXT=self.C_NEXT, TIME=self.C_TIME, RES=self.C_RESUME, MASK=self.C_MASK,
           OSC=self.C_OSC, PH=self.C_PHASE, JIT=self.C_JITTER, BASE=self.C_BASE, CNT=self.C_COUNT,
           PRNG=self.C_PRNG, CD=clkdata))
        return "\n".join(o)

    def _reset_c(self, s, t):
        v = s.reset.value
        v &= (1 << s.nbits) - 1
        if s.signed and v >> (s.nbits - 1):
            v -= 1 << s.nbits
        return _const(v).to(t)

    def _scc(self, nodes, deps):
        """Tarjan, iterative; emits components in dependency order."""
        index = {}
        low = {}
        onst = set()
        st = []
        out = []
        cnt = 0
        for root in sorted(nodes):
            if root in index:
                continue
            work = [(root, iter([d for d in deps[root] if d in nodes]))]
            index[root] = low[root] = cnt
            cnt += 1
            st.append(root)
            onst.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = cnt
                        cnt += 1
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter([d for d in deps[w] if d in nodes])))
                        adv = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
        return out

    # -- build -------------------------------------------------------------------------
    def _load(self, src, opt):
        os.makedirs(BUILD, exist_ok=True)
        so = os.path.join(BUILD, self.src_hash + ".so")
        if not os.path.exists(so):
            c = os.path.join(BUILD, self.src_hash + ".%d.c" % os.getpid())
            with open(c, "w") as fh:
                fh.write(src)
            tmp = so + ".%d.tmp" % os.getpid()
            r = subprocess.run(["clang", "-std=c2x", opt, "-w", "-fno-strict-aliasing", "-fwrapv", "-shared", "-fPIC",
                                "-o", tmp, c], capture_output=True, text=True)
            if r.returncode:
                raise SimModelError("C compile failed: " + r.stderr[:4000])
            os.rename(tmp, so)
            if not os.environ.get("VERIF_KEEP_C"):
                os.unlink(c)
        self.lib = lib = ctypes.CDLL(so)
        self.buf = (ctypes.c_uint64 * self.total)()
        self.mv = memoryview(self.buf).cast("B").cast("Q")
        P = ctypes.c_void_p
        self.addr = ctypes.addressof(self.buf)
        lib.run.argtypes = [P, ctypes.c_uint64, ctypes.c_uint64]
        lib.run.restype = ctypes.c_uint64
        lib.bulk.argtypes = [P, ctypes.c_int, ctypes.c_uint64, P, ctypes.c_int, P]
        lib.bulk.restype = ctypes.c_uint64
        lib.apply.argtypes = [P]
        lib.settle.argtypes = [P]
        # initial image
        mv = self.mv
        for i in range(self.total):
            mv[i] = 0
        for d, s in self.sigs.items():
            v = s.reset.value & ((1 << s.nbits) - 1)
            if s.signed and s.nbits <= 64 and v >> (s.nbits - 1):
                v = (v - (1 << s.nbits)) & (2**64 - 1)
            for i in range(limbs(s.nbits)):
                mv[self.off[d] + i] = (v >> (64 * i)) & (2**64 - 1)
                mv[self.off[d] + i + self.n_delta] = (v >> (64 * i)) & (2**64 - 1)
        for m in self.mems:
            if m.init is not None:
                nl = limbs(m.width)
                for k, v in enumerate(m.init):
                    v &= (1 << m.width) - 1
                    for i in range(nl):
                        mv[self.memoff[m.duid] + k * nl + i] = (v >> (64 * i)) & (2**64 - 1)
        self.image = bytes(self.buf)

    def reset(self):
        ctypes.memmove(self.buf, self.image, len(self.image))

    # -- access --------------------------------------------------------------------------
    def has(self, s):
        return s.duid in self.off

    def ridx(self, s):
        return self.off[s.duid]

    def widx(self, s):
        """index to poke; only inputs may be written"""
        o = self.off[s.duid]
        if not (self.in_range[0] <= o < self.in_range[1]):
            raise SimModelError("not an input: %s" % (s.backtrace,))
        return o + self.n_delta

    def is_input(self, s):
        o = self.off.get(s.duid)
        return o is not None and self.in_range[0] <= o < self.in_range[1]

    def get(self, s):
        o = self.off[s.duid]
        n = s.nbits
        if n <= 64:
            v = self.mv[o]
            if s.signed and v >> 63:
                v -= 1 << 64
            return v
        v = 0
        for i in range(limbs(n)):
            v |= self.mv[o + i] << (64 * i)
        v &= (1 << n) - 1
        if s.signed and v >> (n - 1) & 1:
            v -= 1 << n
        return v

    def set(self, s, v):
        o = self.widx(s)
        n = s.nbits
        v &= (1 << n) - 1
        if n <= 64:
            if s.signed and v >> (n - 1):
                v = (v - (1 << n)) & (2**64 - 1)
            self.mv[o] = v
        else:
            for i in range(limbs(n)):
                self.mv[o + i] = (v >> (64 * i)) & (2**64 - 1)

    def mem_set(self, mem, k, v):
        nl = limbs(mem.width)
        b = self.memoff[mem.duid] + k * nl
        for i in range(nl):
            self.mv[b + i] = (v >> (64 * i)) & (2**64 - 1)

    def mem_get(self, mem, k):
        nl = limbs(mem.width)
        b = self.memoff[mem.duid] + k * nl
        return sum(self.mv[b + i] << (64 * i) for i in range(nl))
