"""C02 C03 C16: streams."""
import vt, campaign, configs, streams
from configs import *

SET = [NATIVE, M32, CALM, UNABLE, SLOW_CALM32, O0, CLANG, CLANG32, NOINT128, WIN64]


def bins_for(c, cfgs=None):
    cfgs = cfgs or SET
    if c.thorough:
        cfgs = cfgs + [SLOW, UNABLE32, UNABLE_CALM32, OS_UNABLE, SLOW32]
    b = campaign.build(c, cfgs, drivers=("histdrv.c",))
    c.coverage["configurations"] = sorted(b)
    return b


def c02(c):
    campaign.published(c)
    t = c.work.tlc("StreamMachine", cfg="StreamOne.cfg").require("StreamMachine")
    c.model("StreamMachine/StreamOne", t, "buffering refines the abstract stream: every cut of up to 26 bytes at block size 8")
    bins = bins_for(c)
    hs = streams.transitions(c.rng, "t", 200 if c.thorough else 100)
    hs += streams.splits(c.rng, "s", 3000 if c.thorough else 500, 8000 if c.thorough else 2500)
    hs += streams.concretise(c.rng, streams.generate(c, 1500 if c.thorough else 200), "g")
    streams.run_histories(c, bins, hs, "result depends on how the message was cut (or is not the specified one)")
    c.coverage["histories"] = len(hs)
    if not c.violations:
        import longs
        longs.middle(c, ["2s64", "2s128"], "result of a long stream depends on how it was cut (or is not the specified one)",
                     [NATIVE, M32, UNABLE, CLANG, UNABLE_CALM32], per=20,
                     cuts=("-", "65536", "4096*3,1*33,0*2,8191", "31", "33*7,1048575", "1*70,100000*1,31*9,64", "1", "63", "0*3,5*100000,97"))
    c.coverage["transitions_of_the_buffer"] = "every fill level 0..31 x every piece length 0..%d" % (200 if c.thorough else 100)
    c.assumptions += ["update behaves by fill level, piece length and content only as far as the histories recorded show"]


def c03(c):
    t = c.work.tlc("StreamMachine", cfg="StreamTwo.cfg").require("StreamMachine")
    c.model("StreamMachine/StreamTwo", t, "two contexts, copies, re-initialisation over arbitrary memory: refines the abstract stream")
    bins = bins_for(c)
    hs = streams.concretise(c.rng, streams.generate(c, 6000 if c.thorough else 900, 40), "g")
    hs += streams.concretise(c.rng, streams.generate(c, 2000 if c.thorough else 200, 90), "l")
    streams.run_histories(c, bins, hs, "contexts are not independent, copyable and re-initialisable", variants=8)
    c.coverage["histories"] = len(hs)
    c.assumptions += ["a context is dead after final until it is initialised again (the API says nothing else)"]


def c16(c):
    campaign.published(c)
    bins = bins_for(c)
    hs = streams.transitions(c.rng, "t", 130 if c.thorough else 66, 1)
    streams.run_histories(c, bins, hs, "64/128-bit finalisation or the stored extra result", variants=8)
    c.coverage["histories"] = len(hs)
    import cases
    vb = campaign.build(c, [NATIVE, M32, CALM, UNABLE, UNABLE_CALM32, SLOW, O0, CLANG, CLANG32, NOINT128])
    n = 4 if c.thorough else 1
    cs = []
    for r in range(n):
        cs += cases.value_cases(c.rng, ["2a128", "2s128", "2s64", "2a64"], dense=300, nsteer=200, nrand=200, longs=[4096, 5000],
                                tag=f"r{r}-")
    campaign.run_cases(c, vb, cs, "extra result or its effect on the returned half", places="few", label="values")
    c.coverage["cases"] = len(cs)
