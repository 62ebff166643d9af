"""C12: no hidden state."""
import vt, cases, campaign
from vt import Config
from configs import *

STATICS = {"scratch": "ResultsRight", "memo": "ResultsRight", "lazy": "ResultsRight", "inplace": "InputKept", "count": "ResultsRight"}
FUNCPTR = Config("funcptr", defs=["T1HA_USE_INDIRECT_FUNCTIONS=0"])
NOAES32 = Config("noaes32", m32=True, defs=["T1HA0_AESNI_AVAILABLE=0", "T1HA0_RUNTIME_SELECT=1"])


def model(c):
    futs = {s: c.work.pool.submit(c.work.tlc, "Reentrancy", None, {"STATIC": s}, 2) for s in ["none"] + list(STATICS)}
    t = futs["none"].result().require("Reentrancy")
    c.model("Reentrancy", t, "with all state in the activation, every call of every interleaving and nesting returns its own result")
    for s, inv in STATICS.items():
        if f"Invariant {inv} is violated" not in futs[s].result().out:
            raise vt.CheckError(f"the model does not tell Static = {s} from none:\n" + futs[s].result().out[-1000:])
    c.coverage["negative_models"] = sorted(STATICS)


def choice(cfg, have):
    """what t1ha0 is on this machine (C07 establishes it; here it only names the definition)"""
    if "T1HA0_AESNI_AVAILABLE=0" in cfg.defs or "aes" not in have: return "0le" if cfg.m32 else "1le"
    return "avx2" if {"avx", "avx2"} <= have else "avx" if "avx" in have else "aes"


def plan(c, fns, per, tag):
    """cases: per function, all shapes: short, tails, blocks, several blocks"""
    lens = [0, 1, 3, 5, 7, 8, 9, 13, 16, 17, 24, 25, 31, 32, 33, 40, 47, 63, 64, 65, 71, 96, 127, 128, 129, 143, 160, 200, 255, 256, 300]
    cs = []
    for f in fns:
        for k in range(per):
            n = lens[(k * 7 + c.rng.randrange(3)) % len(lens)] if per < len(lens) else lens[k % len(lens)]
            cs.append(vt.Case(f"{tag}{f}.{k}", f, ("p", c.rng.randrange(300), n), c.rng.getrandbits(64), c.rng.getrandbits(64)))
    return cs


def c12(c):
    model(c)
    campaign.published(c)
    have = campaign.cpu_flags()
    cfgs = [NATIVE, M32, O0, CLANG, FUNCPTR, NOAES32] + ([CLANG32, UNABLE, UNABLE_CALM32, SLOW32, CALM, NOINT128] if c.thorough else [UNABLE_CALM32])
    bins = campaign.build(c, cfgs, drivers=("reentdrv.c",), libs=["-lpthread"], extra=["-Wl,-z,now"])
    fns = campaign.runnable(cases.ALL64) + ["t1ha0"]
    level = 2 if c.thorough else 1
    per = {"step": 60 if c.thorough else 14, "first": 6 if c.thorough else 2, "threads": 40, "history": 40}
    byid, jobs = {}, []
    for cfg in cfgs:
        if cfg.name not in bins: continue
        mine = [f for f in fns if not (f in ("aes", "avx", "avx2") and "T1HA0_AESNI_AVAILABLE=0" in cfg.defs)]
        for mode, n in per.items():
            cs = plan(c, mine, n, f"{cfg.name}.{mode}.")
            byid.update({x.id: x for x in cs})
            if mode in ("step", "first"):
                split = [[x for x in cs if x.fn == f] for f in mine]
                # another function's cases beside, for nesting
                for i, s in enumerate(split):
                    other = [x for q, z in enumerate(split) for x in z[:1] if q != i] if mode == "step" else []
                    jobs.append((cfg, mode, s + (other if c.thorough else other[i % 3::3]), len(jobs)))
            else:
                jobs.append((cfg, mode, cs, len(jobs)))

    def execute(jobs):
        def go(j):
            cfg, mode, cs, k = j
            p = c.work.path(f"reent-{k}.txt")
            with open(p, "w") as f: f.writelines(x.line() for x in cs)
            try:
                return j, vt.run([bins[cfg.name], p, mode, str(level)], timeout=800)
            except vt.subprocess.TimeoutExpired:
                raise vt.CheckError(f"{cfg.name} {mode} timed out")
        obs, stat = {}, {"steps": 0, "nested": 0, "calls": 0}
        for j, r in c.work.pool.map(go, jobs):
            cfg, mode, cs, _ = j
            done, seen = False, set()
            for l in r.stdout.decode(errors="replace").splitlines():
                t = l.split(" ")
                if t[0] == "R" and len(t) == 5:
                    seen.add(t[1])
                    obs.setdefault((cfg.name, t[1], t[2], t[3]), []).append((mode, t[4]))
                elif t[0] == "DONE": done = True; stat["calls"] += int(t[1])
                elif t[0] == "STAT": stat["steps"] += int(t[1]); stat["nested"] += int(t[2])
                elif t[0] == "UNKNOWN": raise vt.CheckError(f"{cfg.name}: {l}")
            if not done:
                obs.setdefault((cfg.name, cs[0].id, f"died:{r.returncode}", "-"), []).append((mode, "ended"))
            elif seen < {x.id for x in cs}:
                raise vt.CheckError(f"{cfg.name} {mode}: no observation of {sorted({x.id for x in cs} - seen)[:3]}")
        return obs, stat

    def verdict(obs, label):
        rej, n = [], 0
        groups = {}
        for cfg in cfgs: groups.setdefault(choice(cfg, have), set()).add(cfg.name)
        for name, members in groups.items():
            part = {(k[1], k[2], k[3]): w for k, w in obs.items() if k[0] in members}
            if not part: continue
            rejected, t, m = vt.judge(c.work, list(byid.values()), part, alias={"t1ha0": name})
            if t is not None: c.model("ObsHash/" + label, t, "every interrupted, nested, concurrent or repeated call returned its own value")
            n += m
            rej += [(k, e, part[k]) for k, e in rejected]
        return rej, n

    obs, stat = execute(jobs)
    rej, n = verdict(obs, "calls")
    c.traces += n
    if rej:
        bad = {k[0] for k, _, _ in rej}
        again = [j for j in jobs if any(x.id in bad for x in j[2])]
        # an interference between threads need not repeat at once
        for _ in range(3):
            obs2, _ = execute(again)
            rej2, _ = verdict(obs2, "again")
            if rej2: break
        for k, e, w in rej2[:60]:
            c.violate("a call's result shows other calls", campaign.explain(c, k, e, byid, w))
        if not rej2: c.notes.append(f"{len(rej)} rejections did not repeat")
    c.coverage.update({"instructions_interrupted": stat["steps"], "calls": stat["calls"], "configurations": sorted(bins),
                       "cases": len(byid)})
    c.sample({"case": jobs[0][2][0].describe(), "observed": [k[2] for k in obs if k[1] == jobs[0][2][0].id]})
    c.assumptions += ["interruption is explored at every instruction of the chosen calls as this machine executes them",
                      "threads: sequentially consistent interleavings happen by chance only; interruption at every instruction "
                      "covers those where one call runs within another"]
