"""C11: the library on machines that are not here."""
import json, re
import vt, cases, campaign, machines
from machines import Machine

FNS = ["2a64", "2a128", "2s64", "2s128", "1le", "1be", "0le", "0be", "t1ha0", "resolve"]


def fleet(thorough):
    A = [a for a in machines.ARCH if not a.startswith("arm")]
    ms = [Machine(a) for a in A]                                       # as the header decides: no misaligned access
    calm, fast = ["T1HA_USE_FAST_ONESHOT_READ=0"], ["T1HA_USE_FAST_ONESHOT_READ=1"]
    slow, eff, un = (["T1HA_SYS_UNALIGNED_ACCESS=%d" % k] for k in (1, 2, 0))
    rt = ["T1HA0_RUNTIME_SELECT=1", "T1HA_USE_INDIRECT_FUNCTIONS=0"]

    def M(a, tag, **kw):
        ms.append(Machine(a, tag="-" + tag, **kw))
    every = thorough
    for i, a in enumerate(A):
        if every or i % 2 == 0: M(a, "calm", defs=calm + un)
        if every or i % 2 == 1: M(a, "slow", strict=False, defs=slow)
        if every or a in ("mips32be", "mips64be", "sparc64be"): M(a, "efficient", strict=False, defs=eff, opt="-O3")
        if every or a in ("sparc32be", "mips64be"): M(a, "efficient-calm", strict=False, defs=eff + calm)
        if every or a in ("mips32be", "sparc64be"): M(a, "slow-calm", strict=False, defs=slow + calm, opt="-Os")
        if every or a in ("mips32le", "sparc64be", "mips64be"): M(a, "select", defs=rt)
        if every or a in ("mips64be", "sparc64be"): M(a, "no1", defs=["T1HA1_DISABLED"] + (rt if a == "mips64be" else []))
        if every or a in ("mips64be", "mips32le"): M(a, "no12", defs=["T1HA1_DISABLED", "T1HA2_DISABLED"])
        if every or a in ("sparc64be",): M(a, "no2", defs=["T1HA2_DISABLED"])
        if every or a in ("mips64le",): M(a, "no0", defs=["T1HA0_DISABLED"])
        if every or a in ("mips64be", "sparc32be"): M(a, "define", defs=["T1HA0_USE_DEFINE=1"])
        if every or a in ("mips32be", "sparc64be", "mips64le", "sparc32be"): M(a, "O0-assert", opt="-O0", ndebug=False)
        if every: M(a, "O0-slow", opt="-O0", ndebug=False, strict=False, defs=slow)
        if every: M(a, "Os", opt="-Os")
        if every: M(a, "fast", opt="-O3", defs=fast)
    for a in [a for a in machines.ARCH if a.startswith("arm")]:
        strict, lone = a.endswith("-strict"), a in ("arm32le", "arm64be")
        ms.append(Machine(a))
        if every or a in ("arm32le", "arm32be", "arm64le"): M(a, "O3", opt="-O3")
        if every or a in ("arm32be", "arm64be-strict"): M(a, "calm", defs=calm)
        if every or lone: M(a, "select", defs=rt, opt="-Os")
        if not strict and (every or not lone): M(a, "slow", defs=slow)
        if every or a in ("arm32be-strict", "arm64le"): M(a, "O0-assert", opt="-O0", ndebug=False)
        if every: M(a, "fast", opt="-O3", defs=fast)
        if every or a in ("arm32le-strict",): M(a, "O1", opt="-O1")
    for a, t in (("arm32le", "generic"), ("arm32be", "attributes"), ("mips64be", "generic"), ("sparc32be", "generic"), ("mips32le", "attributes"), ("arm64be", "attributes")):
        d = slow if a.startswith("arm") else []
        ms.append(Machine(a, tag="-" + t, defs=d, lib=machines.GENERIC if t == "generic" else machines.ATTRIBUTES))
    return ms


def judge(c, ms, cs, obs, label):
    byid = {k.id: k for k in cs}
    rec = {m.name: dict(m.record(), trap=m.strict) for m in ms}
    path = c.work.path(f"machine-{label}.ndjson")
    keys = []
    with open(path, "w") as f:
        for key in sorted(obs):
            cid, r, e = key
            k = byid.get(cid)
            if k is None: continue
            ok = vt.is_word(r)
            bs = {json.dumps(rec[n]) for n, _ in obs[key]}
            f.write(json.dumps({"id": str(len(keys)), "f": k.fn, "m": vt.msg_json(k.m), "x": vt.limbs(k.x), "y": vt.limbs(k.y),
                                "r": vt.limbs(int(r, 16)) if ok else [], "e": vt.limbs(int(e, 16)) if ok and e != "-" else [],
                                "why": "" if ok else r, "builds": [json.loads(b) for b in sorted(bs)]}) + "\n")
            keys.append(key)
    if not keys:
        raise vt.CheckError("no foreign machine could be built")
    t = c.work.tlc("ObsMachine", env={"OBS": path}).require("calls on foreign machines")
    bad = [keys[int(m.group(1))] for m in re.finditer(r'"REJECT",\s*"(\d+)"\s*>>', t.out)]
    if '"REJECT"' in t.out and not bad:
        raise vt.CheckError("could not parse TLC's rejections:\n" + t.out[-2000:])
    return t, bad, len(keys)


def collector(c, bins, unsupported):
    def collect(ms, cs, label):
        obs = {}
        for exact in (False, True):
            sub = {m.name: bins[m.name] for m in ms if m.exact() == exact}
            if sub:
                o = vt.collect(c.work, sub, cs, "full", exact, 40, f"{label}{int(exact)}")
                for k, w in o.items(): obs.setdefault(k, []).extend(w)
        dead = {n for k, w in obs.items() if k[1].startswith("unsupported:") for n, _ in w}
        for k in [k for k in obs if k[1].startswith("unsupported:")]:
            unsupported.setdefault(k[1], []).extend(obs.pop(k))
        if dead:        # nothing such a machine says counts
            for k in list(obs):
                obs[k] = [w for w in obs[k] if w[0] not in dead]
                if not obs[k]: del obs[k]
        return obs
    return collect


def accesses(c):
    """C09: what the library touches on other machines, whatever it returns there"""
    calm = ["T1HA_USE_FAST_ONESHOT_READ=0"]
    slow, eff, un = (["T1HA_SYS_UNALIGNED_ACCESS=%d" % k] for k in (1, 2, 0))
    ms = [Machine(a, tag="-" + t, strict=False, defs=d) for a, t, d in [
        ("mips32be", "efficient-calm", eff + calm), ("mips64be", "efficient-calm", eff + calm), ("sparc64be", "slow-calm", slow + calm),
        ("sparc32be", "calm", calm + un), ("mips32be", "efficient", eff), ("mips64be", "efficient", eff), ("sparc64be", "slow", slow),
        ("sparc32be", "slow", slow), ("arm32be", "calm", calm), ("arm32le", "as-is", []), ("arm64be", "calm", calm), ("arm64be", "as-is", [])]]
    failed = {}
    bins = machines.build(c.work, ms, failed)
    for n, text in failed.items(): c.notes.append(f"machine {n} not built: {text[:200]}")
    ms = [m for m in ms if m.name in bins]
    n = 330 if c.thorough else 140
    cs = [vt.Case(f"{f}.{k}", f, ("p", c.rng.randrange(300), k), c.rng.getrandbits(64), c.rng.getrandbits(64))
          for f in FNS[:9] for k in list(range(n)) + [500, 1024, 2047]]
    unsupported = {}
    collect = collector(c, bins, unsupported)
    obs = collect(ms, cs, "access")
    for k, w in unsupported.items(): c.notes.append(f"{k}: emulated machines left out: {sorted({a for a, _ in w})}")
    seen = sorted({a for w in obs.values() for a, _ in w})
    if not seen: return c.notes.append("no emulated machine ran")

    def astray(obs):
        return {k: w for k, w in obs.items() if re.match(r"trap:(read|store)-|clobbered", k[1])}
    fine = list(obs)[:: max(1, len(obs) // 60)]          # some that returned go to the specification with them
    bad = astray(obs)
    rej, n = [], 0
    if bad: t, rej, n = judge(c, ms, cs, {**{k: obs[k] for k in fine}, **bad}, "access")
    rej = [k for k in rej if k in bad]
    if rej:
        ids = {k[0] for k in rej[:300]}
        sub = [k for k in cs if k.id in ids]
        again = astray(collect([m for m in ms if m.name in {a for k in rej for a, _ in obs[k]}], sub, "access-again"))
        byid = {k.id: k for k in cs}
        for k in [k for k in again if k in set(rej)][:100]:
            c.violate("access the call is not entitled to, on this machine",
                      dict(byid[k[0]].describe(), observed=k[1], where=[f"{a}:{b}" for a, b in again[k][:6]]))
    c.coverage["machines"] = {"names": seen, "calls": len(cs), "observations": sum(len(w) for w in obs.values())}


def c11(c):
    campaign.published(c)
    t = c.work.tlc("MemAccess", cfg="MemAccess.cfg" if c.thorough else "MemAccessUnable.cfg").require("MemAccess")
    c.model("MemAccess", t, "every word read where misaligned reads trap is aligned to its size, pairs of words to words; the tail words are those of the message")
    old = c.work.tlc("MemAccess", cfg="MemAccessOldAlign.cfg")
    if "Invariant Aligned is violated" not in old.out:
        raise vt.CheckError("the model no longer shows the defect repaired in d0729f6:\n" + old.out[-1500:])
    old = c.work.tlc("MemAccess", cfg="MemAccessOldPairs.cfg")
    if "Invariant Pairs is violated" not in old.out:
        raise vt.CheckError("the model no longer shows the defect of paired loads on ARM:\n" + old.out[-1500:])
    c.coverage["negative_models"] = ["MemAccessOldAlign.cfg (without commit d0729f6) violates Aligned, as it should",
                                     "MemAccessOldPairs.cfg (64-bit words read directly on 32-bit ARM) violates Pairs, as it should"]

    ms = fleet(c.thorough)
    failed = {}
    bins = machines.build(c.work, ms, failed)
    for n, text in failed.items():
        m = next(x for x in ms if x.name == n)
        if machines.host_compiles(c.work, m):
            c.violate("the library does not compile for this machine", {"machine": n, "target": m.target, "options": m.defs, "why": text[:1500]})
        else:
            c.notes.append(f"machine {n} not built: {text[:300]}")
    if not bins:
        raise vt.CheckError("no foreign machine could be built")
    ms = [m for m in ms if m.name in bins]

    p = dict(dense=1100, nsteer=400, nrand=500, npat=2) if c.thorough else dict(dense=150, nsteer=70, nrand=70, nseed=12)
    cs = cases.value_cases(c.rng, FNS[:8], longs=cases.long_lengths(c.rng, 8, 1 << (15 if c.thorough else 12)), **p)
    for f in FNS[8:]:
        for n in list(range(72)) + [100, 127, 128, 129, 255, 500, 1025]:
            cs.append(vt.Case(f"{f}.{n}", f, ("p", c.rng.randrange(300), n), c.rng.getrandbits(64)))
    for k in range(16):        # both with and without constructors run
        cs.append(vt.Case(f"self{k}", "self", ("z", 0, 0), 0))
    unsupported = {}

    collect = collector(c, bins, unsupported)
    obs = collect(ms, cs, "machines")
    t, bad, n = judge(c, ms, cs, obs, "all")
    c.model("ObsMachine", t, "every call on every foreign machine returns what the specification says, and does not trap")
    c.traces += n
    seen = {}
    for k, w in obs.items():
        for name, _ in w: seen[name] = seen.get(name, 0) + 1
    if bad:
        byid = {k.id: k for k in cs}
        ids = {k[0] for k in bad[:300]}
        sub = [k for k in cs if k.id in ids]
        obs2 = collect([m for m in ms if m.name in {a for k in bad for a, _ in obs[k]}], sub, "again")
        _, bad2, _ = judge(c, ms, sub, obs2, "again")
        for k in [k for k in bad2 if k in set(bad)][:200]:
            c.violate("a call on this machine does not return what it should",
                      dict(byid[k[0]].describe(), observed=k[1], extra=k[2], where=[f"{a}:{b}" for a, b in obs2[k][:6]]))
        if not c.violations: c.notes.append(f"{len(bad)} rejections did not repeat")
    for k, w in unsupported.items():
        c.notes.append(f"{k}: emulated machines left out: {sorted({a for a, _ in w})}")
    if not seen:
        raise vt.CheckError(f"no emulated machine ran: {c.notes}")
    c.coverage["machines"] = {m.name: {"target": m.target, "strict": m.strict, "opt": m.opt, "defs": m.defs,
                                       "observations": seen.get(m.name, 0)} for m in ms}
    c.coverage["cases"] = len(cs)
    for k in list(obs)[:: max(1, len(obs) // 5)][:5]:
        b = next((x for x in cs if x.id == k[0]), None)
        if b: c.sample(dict(b.describe(), result=k[1], machines=len({a for a, _ in obs[k]})))
    c.assumptions += ["the cores in drivers/ execute MIPS32/64 r2, SPARC V8/V9, ARMv7-A (A32) and AArch64 as those processors do",
                      "the code clang 18 makes for these targets stands for that of other compilers"]
