"""C01 C04 C05 C06 C08: values of the hash functions."""
import vt, cases, campaign, configs, longs as longmsg
from configs import *


def values(c, fns, what, cfgs=None, places="full", quick=dict(), thorough=dict()):
    campaign.published(c)
    fns = campaign.runnable(fns)
    cfgs = cfgs or configs.VALUE_SET
    if c.thorough:
        cfgs = cfgs + [x for x in configs.EXTRA_SET if x.name not in {y.name for y in cfgs}]
    bins = campaign.build(c, cfgs)
    rounds = 4 if c.thorough else 1
    for r in range(rounds):
        p = dict(dense=530, nseed=64, nsteer=300, npat=2, nrand=300)
        p.update(quick)
        if c.thorough:
            p.update(dense=1300 if r == 0 else 200, nseed=64, nsteer=1500, npat=4, nrand=1500)
            p.update(thorough)
        longs = cases.long_lengths(c.rng, p.pop("nlong", 24), p.pop("top", 1 << 18 if c.thorough else 1 << 16))
        cs = cases.value_cases(c.rng, fns, longs=longs, tag=f"r{r}-", **p)
        campaign.run_cases(c, bins, cs, what, places=places, label=f"round{r}")
        campaign.count(c, "cases", len(cs))
        campaign.count(c, "longest_message", 0)
        c.coverage["longest_message"] = max([c.coverage["longest_message"]] + [vt_len(k) for k in cs])
        if c.violations:
            break
    if not c.violations:
        longmsg.middle(c, fns, what, [NATIVE, M32, UNABLE, CLANG, UNABLE_CALM32, WIN64])
    c.coverage["configurations"] = sorted(bins)
    c.coverage["functions"] = fns
    c.coverage["placements_per_case"] = "about 107 (all alignments at both page edges and across a page boundary)"
    c.assumptions += ["inputs outside the sampled set behave like those sampled of the same shape (length class, "
                      "multiplication operand class, placement)",
                      "the 81 published reference values per function define the published algorithm together with its description"]


def vt_len(k):
    return len(k.m[2]) if k.m[0] == "x" else k.m[2]


def c01(c):
    values(c, ["2a64", "2a128"], "t1ha2 at-once value differs from the specification",
           quick=dict(nsteer=900, nrand=900, npat=3))


def c04(c):
    values(c, ["1le", "1be"], "t1ha1 value differs from the specification", quick=dict(nsteer=900, nrand=900, npat=3))


def c05(c):
    values(c, ["0le", "0be"], "t1ha0 32-bit value differs from the specification",
           quick=dict(nsteer=900, nrand=900, npat=3))


def c06(c):
    values(c, ["aes", "avx", "avx2"], "AES variant value differs from the specification",
           quick=dict(nsteer=400, nrand=600, npat=3))


def c08(c):
    values(c, cases.ALL64, "value depends on where the message lies",
           cfgs=[NATIVE, M32, CALM, UNABLE, UNABLE_CALM32, SLOW, SLOW32, CLANG32],
           quick=dict(dense=300, nsteer=0, nrand=80, nseed=4, npat=1))

