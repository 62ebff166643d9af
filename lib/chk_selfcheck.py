"""C13: the self-checks reject every wrong reference value."""
import json, re, subprocess
import vt, campaign, mock
from mock import Bld

CHECKS = {   # check -> functions it may probe (only to choose faults; the specification says what it is responsible for)
    "t1ha_selfcheck__t1ha2_atonce": ["2a64"], "t1ha_selfcheck__t1ha2_atonce128": ["2a128"],
    "t1ha_selfcheck__t1ha2_stream": ["2s64", "2s128"], "t1ha_selfcheck__t1ha2": ["2a64", "2a128", "2s64", "2s128"],
    "t1ha_selfcheck__t1ha1_le": ["1le"], "t1ha_selfcheck__t1ha1_be": ["1be"], "t1ha_selfcheck__t1ha1": ["1le", "1be"],
    "t1ha_selfcheck__t1ha0_32le": ["0le"], "t1ha_selfcheck__t1ha0_32be": ["0be"],
    "t1ha_selfcheck__t1ha0_ia32aes_noavx": ["aes"], "t1ha_selfcheck__t1ha0_ia32aes_avx": ["avx"],
    "t1ha_selfcheck__t1ha0_ia32aes_avx2": ["avx2"],
    "t1ha_selfcheck__t1ha0": ["0le", "0be", "1le", "1be", "2a64", "2a128", "2s64", "2s128", "aes", "avx", "avx2"],
    "t1ha_selfcheck__all_enabled": ["2a64", "2a128", "2s64", "2s128", "1le", "1be", "0le", "0be", "aes", "avx", "avx2"],
}
FAMILY = {"2": 2, "1": 1, "0": 0, "a": 0}
NEED = {"t1ha_selfcheck__t1ha0_ia32aes_noavx": {"aes"}, "t1ha_selfcheck__t1ha0_ia32aes_avx": {"avx"},
        "t1ha_selfcheck__t1ha0_ia32aes_avx2": {"avx2"}}


def available(b, k, have):
    d, a = b.spec["dis"], b.spec["aes"]
    if k.endswith("all_enabled"): return True
    m = re.match(r"t1ha_selfcheck__t1ha(\d)", k)
    if int(m.group(1)) in d: return False
    if k in NEED: return a and NEED[k] <= have
    return True


def c13(c):
    t = c.work.tlc("SelfCheckMC", cfg="SelfCheckDeep.cfg" if c.thorough else "SelfCheck.cfg", timeout=3000).require("SelfCheck")
    c.model("SelfCheckMC", t, "every check x build x processor x fault set: verdict, completeness, rejection")
    refs = c.work.path("refs.ndjson")
    c.work.tlc("RefGen", env={"OUT": refs}).require("RefGen")
    reftxt = c.work.path("refs.txt")
    with open(refs) as f, open(reftxt, "w") as g:
        for l in f:
            r = json.loads(l)
            m = (r["m"]["g"], r["m"]["s"], bytes(r["m"]["b"]) if r["m"]["g"] == "x" else r["m"]["n"])
            b = vt.msg_bytes(m)
            g.write(f"{b.hex() if b else '-'} {vt.unlimbs(r['s']):016x}\n")
    have = campaign.cpu_flags()
    allcpus, _ = mock.cpus(c.work)
    pick = lambda **kw: [x for x in allcpus if all(x["cpu"][k] == v for k, v in kw.items())][0]
    full = pick(max=13, aes=True, osxsave=True, avx=True, avx2=True, noise="zero")
    cpus = [full, pick(max=1, aes=True, osxsave=True, avx=True, avx2=True, noise="ones"),
            pick(max=7, aes=True, osxsave=False, avx=True, avx2=True, noise="ones"),
            pick(max=7, aes=False, osxsave=True, avx=True, avx2=True, noise="ones")]
    cpus = [x for x in cpus if mock.supported(x) <= have]
    builds = [Bld("plain", plain=True), Bld("plain32", plain=True, m32=True), Bld("clang", cc="clang", opt="-O2"),
              Bld("Os", opt="-Os"), Bld("no1", dis=(1,)), Bld("no2", dis=(2,)), Bld("no12", dis=(1, 2)), Bld("only2", dis=(0, 1)),
              Bld("only1", dis=(0, 2)), Bld("noaes", aes=False), Bld("no1-32", dis=(1,), m32=True), Bld("no0", dis=(0,))]
    if c.thorough:
        builds += [Bld("clang32", cc="clang", m32=True), Bld("O0", opt="-O0"), Bld("O1", opt="-O1"), Bld("clang-O3", cc="clang"),
                   Bld("static", rt=False), Bld("noaes32", aes=False, m32=True)]
    made = {}
    for b, r in zip(builds, c.work.pool2.map(lambda b: attempt(c, b), builds)):
        if r: made[b.name] = (b, r)

    masks = [1 << i for i in range(64)] + [vt.M64, (1 << 32) - 1, vt.M64 ^ ((1 << 32) - 1), 0x8000000080000000, 0xff, 0xff << 56]
    few = [1, 1 << 63, 1 << 31, 1 << 32, vt.M64, 0x0000ffff00000000]
    rng = c.rng

    def plans(b, cpu, deep):
        """[(line, kind, k, faults, count)]"""
        out = []
        for k, fs in CHECKS.items():
            if not available(b, k, have): continue
            out.append((f"B {{}} {k}", "B", k, None))
            fs = [f for f in fs if FAMILY[f[0]] not in b.spec["dis"] and (b.spec["aes"] or f[0] != "a")]
            for f in fs:
                ms = masks if deep and len(fs) <= 2 else few
                if not deep and len(fs) > 2: ms = rng.sample(masks, 2)
                out.append((f"X {{}} {k} {f} {','.join('%x' % m for m in ms)}", "X", k, f))
            for n in range(60 if deep else 12):
                q = []
                style = rng.randrange(5)
                m = rng.choice(masks)
                if style == 0:     # the same error in several places
                    q = [(rng.choice(fs), rng.randrange(1, 82), 0, m) for _ in range(rng.choice([2, 2, 3, 4, 8]))]
                elif style == 1:   # everything wrong in the same way
                    f = rng.choice(fs)
                    q = [(f, j, 0, m) for j in range(1, 82)]
                elif style == 2:   # wrong once, the first or a later time
                    q = [(rng.choice(fs), rng.randrange(1, 82), rng.choice([1, 2, 3]), m)]
                elif style == 3:   # several functions at once, same input
                    j = rng.randrange(1, 82)
                    q = [(f, j, 0, m) for f in fs]
                else:
                    q = [(rng.choice(fs), rng.randrange(1, 82), rng.choice([0, 0, 1, 2]), rng.getrandbits(64) or 1)
                         for _ in range(rng.randrange(1, 12))]
                seen, qq = set(), []
                for x in q:
                    if (x[0], x[1]) not in seen:
                        seen.add((x[0], x[1])); qq.append(x)
                out.append((f"M {{}} {k} " + " ".join(f"{f}:{j}:{o}:{mm:x}" for f, j, o, mm in qq), "M", k, qq))
        return out

    jobs = []
    for name, (b, (binary, mocked)) in made.items():
        use = cpus if mocked and b.spec["aes"] else [full]
        for i, cpu in enumerate(use):
            deep = i == 0 and (name in ("plain", "plain32") or c.thorough)
            p = plans(b, cpu, deep)
            nsh = 4 if deep else 1
            for s in range(nsh):
                jobs.append((b, binary, cpu, f"{i}-{s}", p[s::nsh]))

    def execute(job):
        b, binary, cpu, tag, plan = job
        path = binary + f".plan-{tag}"
        with open(path, "w") as f:
            for n, p in enumerate(plan):
                f.write(p[0].format(n) + "\n")
        text, rc = mock.execute(c.work, binary, cpu, tag, args=[reftxt, path], timeout=600)
        recs = []
        base = {"build": b.spec, "cpu": cpu["cpu"], "name": b.name}
        nofaults = {"seen": [], "faults": [], "delivered": False}
        for l in text.splitlines():
            t = l.split()
            if t[0] == "END": return recs
            if t[2:3] == ["absent"]:
                # the specification knows it: it must exist
                recs.append(dict(base, k=plan[int(t[1])][2], kind="B", rc=-98, **nofaults)); continue
            kind, p = t[0], plan[int(t[1])]
            if kind == "B":
                seen = [{"f": x.split("=")[0], "js": [int(v) for v in x.split("=")[1].split(",")]} for x in t[3:]]
                recs.append(dict(base, k=p[2], kind="B", rc=int(t[2]), seen=seen, faults=[], delivered=False))
            elif kind == "X":
                recs.append(dict(base, k=p[2], kind="F", rc=int(t[3]), seen=[], delivered=t[4] == "1",
                                 faults=[{"f": p[3], "j": int(t[2]), "occ": 0}]))
            elif kind == "M":
                recs.append(dict(base, k=p[2], kind="F", rc=int(t[2]), seen=[], delivered=t[3] == "1",
                                 faults=[{"f": f, "j": j, "occ": o} for f, j, o, m in p[3]]))
        recs.append(dict(base, k="t1ha_selfcheck__all_enabled", kind="B", rc=-99, **nofaults))   # died
        return recs

    def judge(jobs):
        recs = [r for rs in c.work.pool.map(execute, jobs) for r in rs]
        for i, r in enumerate(recs): r["id"] = str(i)
        path = c.work.path("self.ndjson")
        with open(path, "w") as f:
            for r in recs:
                f.write(json.dumps({k: v for k, v in r.items() if k != "name"}) + "\n")
        t = c.work.tlc("ObsSelf", env={"OBS": path}).require("self-check runs")
        bad = [recs[int(m)] for m in re.findall(r'"REJECT",\s*"(\d+)"', t.out)]
        return t, recs, bad

    t, recs, bad = judge(jobs)
    if bad:
        t, _, bad = judge([j for j in jobs if j[0].name in {r["name"] for r in bad}])
        for r in bad[:100]:
            c.violate("a self-check's verdict is wrong", {k: r[k] for k in ("name", "cpu", "k", "kind", "rc", "delivered")} |
                      {"faults": r["faults"][:6], "seen": {s["f"]: len(s["js"]) for s in r["seen"]}})
    c.model("ObsSelf", t, "every verdict under injected faults is the specified one")
    c.traces += len(recs)
    c.coverage["runs_judged"] = len(recs)
    c.coverage["builds"] = sorted(made)
    c.coverage["faults"] = "single faults: every reference input x every single-bit mask (and others) for every leaf; few masks for aggregates; random combinations"
    if recs:
        c.sample(next((r for r in recs if r["kind"] == "F"), recs[0]))
        c.sample(recs[-1])
    c.assumptions += ["self-checks reach the hash functions through their entry points (breaking them there is seen by the check)",
                      "builds without assertions (with them a wrong value aborts the program in probe())"]


def attempt(c, b):
    try:
        return mock.build(c.work, b, driver="selfdrv.c")
    except vt.BuildFailed as e:
        if b.name == "plain": raise
        c.notes.append(f"{b.name} not built: {e.text[:200]}")
        return None
