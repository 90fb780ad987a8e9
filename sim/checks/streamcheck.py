"""Common machinery for 'stream transformer' properties: feed tokens under a plan-controlled
valid/ready schedule (optionally with a mid-run reset) and compare the accepted output tokens
with a reference model."""
import random

from migen import *

from ..fhdl2c import Design
from ..kernel import Kernel, Violation
from ..streams import Sched, gen_sched, Producer, Consumer, ep_signals, payload_fields
from .. import runner

PERIOD = 10000


def m_rst(d):
    return d.widx(d.cds["sys"].rst)


class StreamCheck:
    CHUNK = 25
    MIN_RUNS = 40
    RULE = ("one run = one stream converter configuration, a random token sequence and random per-cycle "
            "valid/ready schedules (idle producer drives garbage payload and qualifiers); non-trivial when at "
            "least one output token was withheld by the consumer or one input stalled, and >=4 tokens compared")
    STATE_MEASURE = ("hash of (configuration, occupancy = accepted inputs - accepted outputs, producer valid, "
                     "consumer ready, source valid) seen at clock edges")
    ASSUMPTIONS = ["the producer keeps valid and payload until accepted (LiteX stream rule)",
                   "gateware semantics are those of Migen's FHDL (compiled to C, compared with Migen's simulator by sim/selftest_fhdl.py)"]
    STUB = ["producer and consumer of the stream (plan driven)", "clock and reset generation"]
    FAULTS = ("producer-stall", "consumer-backpressure", "reset", "reset-with-tokens-in-flight")
    TOK = (4, 80)

    # subclass: configs(tier) -> list; make(cfg)-> module with sink, source;
    # tokens(rng, cfg, n) -> list of (payload, first, last);  model(cfg, tokens) -> list of dict
    def build(self, cfg):
        key = (self.PROP, repr(sorted(cfg.items())))

        def b():
            m = self.make(cfg)
            return m, Design(m, keep=ep_signals(m.sink) + ep_signals(m.source))
        return runner.design(key, b)

    def gen(self, rng, tier, i):
        cfgs = self.configs(tier)
        cfg = cfgs[i % len(cfgs)]
        n = rng.randrange(*self.TOK)
        n += n % self.MULT(cfg)
        mode = rng.choice(["both", "both", "in", "out", "none"])
        return {"cfg": cfg, "tokens": self.tokens(rng, cfg, n),
                "vs": gen_sched(rng, n * 3, mode in ("both", "in")),
                "rs": gen_sched(rng, n * 4, mode in ("both", "out")),
                "warm": rng.choice([0, 0, 1, 2, 3, 5, 8]),
                # optional crash: reset the block after so many cycles, then start afresh
                "reset": [rng.randrange(1, 3 * n + 12), rng.randrange(1, 4)] if rng.random() < .35 else None}

    def MULT(self, cfg):
        return 1

    def simplify(self, plan):
        for name in ("vs", "rs"):
            if plan[name]:
                yield dict(plan, **{name: []})
        if plan["warm"]:
            yield dict(plan, warm=0)
        if plan["reset"]:
            yield dict(plan, reset=None)

    def execute(self, plan, res):
        cfg = plan["cfg"]
        m, d = self.build(cfg)
        rng = random.Random(plan["seed"])
        k = Kernel(d, plan["seed"])
        k.clock("sys", PERIOD)
        toks = [(p, f, l) for p, f, l in plan["tokens"]]
        ntok = len(toks) // self.MULT(cfg) * self.MULT(cfg)
        toks = toks[:ntok]
        if plan["warm"]:
            k.run(PERIOD * plan["warm"] + 1)
        st = res.state
        key = repr(sorted(cfg.items()))
        cur = {}

        def start(t):
            cur["p"] = Producer(k, "sys", m.sink, t, Sched(plan["vs"], random.Random(rng.random())), random.Random(rng.random()))
            cur["c"] = Consumer(k, "sys", m.source, Sched(plan["rs"], random.Random(rng.random())))

        def stop():
            k.unhook(cur["p"].h)
            k.unhook(cur["c"].h)
            res.fault("producer-stall", cur["p"].stalls)
            res.fault("consumer-backpressure", cur["c"].withheld)
            res.probe("input-blocked", cur["p"].backpressured)
            res.probe("tokens-compared", len(cur["c"].got))
            res.log(cfg, cur["c"].got, cur["p"].accepted_at, k.now)
            if len(cur["c"].got) >= 4 and (cur["p"].stalls + cur["c"].withheld) > 0:
                res.nontrivial = True

        def obs():
            p, c = cur["p"], cur["c"]
            st(key, p.pos - len(c.got), p.presenting, c.ready, c.held is not None)
        names = [n for n, s_ in payload_fields(m.source)]
        span = sum(s[1] for s in plan["vs"]) + sum(s[1] for s in plan["rs"])
        start(toks)
        oh = k.hook("sys", obs)
        try:
            if plan["reset"]:
                at, n = plan["reset"]
                k.run(k.now + PERIOD * at)
                c = cur["c"]
                self.compare(cfg, self.model(cfg, toks), c.got, names, complete=False)
                inflight = cur["p"].pos - len(c.got)
                stop()
                cur["p"]._idle()
                if c.ready_w is not None:
                    k.mv[c.ready_w] = 0
                rst = m_rst(d)
                k.mv[rst] = 1
                k.run(k.now + PERIOD * n)
                k.mv[rst] = 0
                res.fault("reset")
                if inflight > 0:
                    res.fault("reset-with-tokens-in-flight")
                start(toks)
            k.run(k.now + PERIOD * (span + 2 * len(toks) + 60))
            self.compare(cfg, self.model(cfg, toks), cur["c"].got, names, complete=True)
        finally:
            stop()
            res.sim_ps = k.now
            res.edges = k.mv[d.C_EDGES]
            res.cfg = key

    def compare(self, cfg, exp, got, names, complete):
        for i, g in enumerate(got):
            if i >= len(exp):
                raise Violation("extra-token", "output %d %r but only %d tokens were sent" % (i, g, len(exp)), cfg=cfg.get("dut"))
            e, f, l = exp[i]
            gd = dict(zip(names, g))
            for n in names:
                if not self.value_ok(cfg, e[n], gd[n]):
                    raise Violation("value", "%s output %d field %s = %d, expected %s (input order)" % (cfg["dut"], i, n, gd[n], e[n]), cfg=cfg.get("dut"))
            if f is not None and g[-2] != f or l is not None and g[-1] != l:
                raise Violation("qualifier", "%s output %d first/last = %d/%d, expected %s/%s" % (cfg["dut"], i, g[-2], g[-1], f, l), cfg=cfg.get("dut"))
        if complete and len(got) < len(exp):
            raise Violation("lost-token", "%s delivered %d of %d tokens although both sides were always ready for long enough" % (
                cfg["dut"], len(got), len(exp)), cfg=cfg.get("dut"))

    def value_ok(self, cfg, e, g):
        return e == g
