"""Long messages: cases, running them (drivers/longdrv.c) and their judgement
by ObsLong, with the fold over the blocks compiled (spec/java)."""
import json, os, re, threading
import vt
from vt import limbs

PERIOD = 1 << 20
_lock = threading.Lock()


class Long:
    def __init__(self, id, fn, n, salt=0, o=0, x=0, y=0, cut="-"):
        self.id, self.fn, self.n, self.salt, self.o, self.x, self.y, self.cut = id, fn, n, salt, o, x, y, cut

    def line(self):
        return f"{self.id} {self.fn} {self.salt} {self.o} {self.n} {self.x:x} {self.y:x} {self.cut}\n"

    def value_key(self):
        return (self.fn, self.salt, self.o, self.n, self.x, self.y if self.fn in ("2s64", "2s128") else 0)

    def biggest(self):
        if self.cut == "-": return self.n
        return min(self.n, max(int(p.split("*")[0]) for p in self.cut.split(",")))

    def describe(self):
        return {"fn": self.fn, "length": self.n, "salt": self.salt, "offset": self.o, "x": hex(self.x), "y": hex(self.y),
                "pieces": self.cut}


def classpath(c):
    """compiles the Java side of module Bulk into the run's own directory"""
    with _lock:
        d = c.work.path("java")
        if not os.path.isdir(d):
            os.makedirs(d + ".new", exist_ok=True)
            r = vt.run(["javac", "-cp", vt.TLA + "/tla2tools.jar", "-d", d + ".new",
                        os.path.join(vt.SPEC, "java", "tlc2", "module", "Bulk.java")])
            if r.returncode:
                raise vt.CheckError("javac: " + r.stderr.decode(errors="replace"))
            os.rename(d + ".new", d)
        return [d]


def models(c):
    cp = classpath(c)
    f = [c.work.pool2.submit(c.work.tlc, "BulkCheck", cp=cp, workers=4),
         c.work.pool2.submit(c.work.tlc, "LongCheck", env={"DEPTH": "deep" if c.thorough else "quick"}, cp=cp, workers=4, timeout=3000)]
    c.model("BulkCheck", f[0].result().require("BulkCheck"), "the compiled walk over blocks is the fold of the specified block steps")
    c.model("LongCheck", f[1].result().require("LongCheck"), "the long-message definitions agree with the ones checked against the published values")


def run(c, jobs):
    """jobs: [(config, binary, [Long])]; {(value key, result, extra): [(config, case)]}"""
    obs = {}

    def one(k, cfg, b, cs):
        plan = c.work.path(f"long-{k}-{cfg}.txt")
        with open(plan, "w") as f:
            for x in sorted(cs, key=lambda x: (x.salt, -x.biggest())):
                f.write(x.line())
        try:
            r = vt.run([b, plan], timeout=3600 if c.thorough else 800)
        except vt.subprocess.TimeoutExpired:
            raise vt.CheckError(f"longdrv {cfg} timed out")
        return cfg, cs, r
    for f in [c.work.pool.submit(one, k, *j) for k, j in enumerate(jobs)]:
        cfg, cs, r = f.result()
        byid = {x.id: x for x in cs}
        out = r.stdout.decode(errors="replace")
        if "NOROOM" in out:
            c.notes.append(f"{cfg}: no address space for some cases")
        seen = set()
        for line in out.splitlines():
            t = line.split(" ")
            if t[0] == "R" and len(t) == 4:
                x = byid[t[1]]
                obs.setdefault((x.value_key(), t[2], t[3]), []).append((cfg, x))
                seen.add(t[1])
        if "DONE" not in out and "NOROOM" not in out:
            order = sorted(cs, key=lambda x: (x.salt, -x.biggest()))
            x = next((x for x in order if x.id not in seen), order[-1])
            obs.setdefault((x.value_key(), f"died:{r.returncode}", "-"), []).append((cfg, x))
    return obs


def judge(c, obs, label, timeout=2000):
    keys, rejected = [], []
    path = c.work.path(f"long-{label}.ndjson")
    # longest first, dealt out over TLC's chunks
    with open(path, "w") as f:
        for key in sorted(obs, key=lambda k: (-k[0][3], k)):
            (fn, salt, o, n, x, y), r, e = key
            if not vt.is_word(r):
                rejected.append((key, None))
                continue
            f.write(json.dumps({"id": str(len(keys)), "f": fn, "s": salt, "o": o, "n": limbs(n), "x": limbs(x), "y": limbs(y),
                                "r": limbs(int(r, 16)), "e": limbs(int(e, 16)) if e != "-" else []}) + "\n")
            keys.append(key)
    if keys:
        t = c.work.tlc("ObsLong", env={"OBS": path}, cp=classpath(c), timeout=timeout, heap="12g").require("long observations")
        c.model("ObsLong/" + label, t, "every observed long hash is the specified value")
        for m in re.finditer(r'"REJECT",\s*"(\d+)",\s*<<\s*<<([\d,\s]+)>>,\s*<<([\d,\s]*)>>\s*>>', t.out):
            rejected.append((keys[int(m.group(1))], vt.unlimbs([int(v) for v in m.group(2).split(",")])))
        if t.out.count('"REJECT"') and not any(e is not None for _, e in rejected):
            raise vt.CheckError("could not parse TLC's rejections:\n" + t.out[-2000:])
    return rejected, len(keys)


def check(c, jobs, label, what):
    obs = run(c, jobs)
    if not obs:
        raise vt.CheckError("no long message was hashed")
    rejected, n = judge(c, obs, label)
    c.traces += n
    bins = {cfg: b for cfg, b, _ in jobs}
    for key in sorted(obs, key=str)[:: max(1, len(obs) // 3)][:3]:
        c.sample(dict(obs[key][0][1].describe(), result=key[1], extra=key[2], configurations=len({a for a, _ in obs[key]})))
    if rejected:
        again = []
        seen = {}
        for k, _ in rejected[:60]:
            for cfg, x in obs[k][:3]:
                seen.setdefault(cfg, {})[x.id] = x
        obs2 = run(c, [(cfg, bins[cfg], list(xs.values())) for cfg, xs in seen.items()])
        rej2, _ = judge(c, obs2, label + "-again")
        for k, exp in rej2:
            d = {"observed": k[1], "extra": k[2], "where": [a for a, _ in obs2[k][:6]]}
            d.update(obs2[k][0][1].describe())
            if exp is not None: d["specified"] = f"{exp:016x}"
            c.violate(what, d)
        if not rej2:
            c.notes.append(f"{len(rejected)} rejections did not repeat")
    return obs


def middle(c, fns, what, cfgs, per=14, cuts=("-",)):
    """messages of 64 KiB to 64 MiB, in every build given"""
    import campaign
    models(c)
    bins = campaign.build(c, cfgs, drivers=("longdrv.c",), tag="-long")
    rng = c.rng
    top = 28 if c.thorough else 24
    base = []
    for f in fns:
        for k in range(per * (4 if c.thorough else 1)):
            n = (1 << rng.randrange(15, top)) + rng.choice([rng.randrange(-40, 300), rng.randrange(1 << 15)])
            if k % 4 == 3: n = rng.randrange(1 << 16, 1 << 22)
            base.append((f, n, rng.randrange(3), rng.choice([0, 0, 1, 2, 4, 5, 8]), rng.getrandbits(64), rng.getrandbits(64)))
    jobs = []
    for q, cfg in enumerate(cfgs):
        if cfg.name not in bins: continue
        cs = [Long(f"m{i}.{q}.{j}", f, n, salt, o, x, y, cut)
              for i, (f, n, salt, o, x, y) in enumerate(base)
              for j, cut in enumerate(cuts) if cut == "-" or (i + q) % 3 == j % 3 or c.thorough]
        for p in range(3):
            if cs[p::3]: jobs.append((cfg.name, bins[cfg.name], cs[p::3]))
    check(c, jobs, "middle", what)
    c.coverage["middle_lengths"] = len(base)
    c.coverage["longest_message"] = max([c.coverage.get("longest_message", 0)] + [b[1] for b in base])
