"""Histories of stream operations: generation, running, judging."""
import json, random, re
import vt
from vt import M64


class History:
    __slots__ = ("id", "ops")

    def __init__(self, id, ops):
        self.id, self.ops = id, ops

    def line(self):
        t = [self.id]
        for o in self.ops:
            k, c = o[0], o[1]
            if k == "i": t.append(f"i{c}:{o[2]:016x}:{o[3]:016x}")
            elif k == "u": t.append(f"u{c}:{vt.msg_text(o[2])}")
            elif k == "k": t.append(f"k{c}{o[2]}")
            else: t.append(f"{k}{c}")
        return " ".join(t) + "\n"

    def json_ops(self):
        res = []
        for o in self.ops:
            k, c = o[0], o[1]
            if k == "i": res.append({"o": k, "c": c, "x": vt.limbs(o[2]), "y": vt.limbs(o[3])})
            elif k == "u": res.append({"o": k, "c": c, "m": vt.msg_json(o[2])})
            elif k == "k": res.append({"o": k, "c": c, "d": o[2]})
            else: res.append({"o": k, "c": c})
        return res

    def describe(self):
        return self.line().strip()[:600]


def message(rng, n):
    r = rng.random()
    if n <= 64 and r < 0.15:
        return ("x", 0, bytes(rng.getrandbits(8) for _ in range(n)))
    if r < 0.85:
        return ("p", rng.randrange(5000), n)
    return (rng.choice("zfch"), rng.randrange(256), n)


def seed(rng):
    return rng.choice([0, M64, 1, 1 << 63, rng.getrandbits(64), rng.getrandbits(64), rng.getrandbits(64)])


def both_finals(c, spare):
    """observe context c in both modes, destroying it"""
    return [("k", c, spare), ("g", spare), ("f", c)]


def generate(c, num, depth=30):
    """behaviours of StreamGen, by TLC in simulation mode"""
    cfg = c.work.path("gen.cfg")
    with open(cfg, "w") as f:
        f.write(f"SPECIFICATION Spec\nCONSTANTS\n  Slots = {{1, 2, 3, 4}}\n  Depth = {depth}\n"
                "  Big = {100, 127, 128, 129, 255, 256, 257, 300}\nCHECK_DEADLOCK FALSE\n")
    t = c.work.tlc("StreamGen", cfg=cfg, workers=1,
                   args=["-seed", str(c.rng.getrandbits(31)), "-simulate", f"num={num}", "-depth", str(depth + 3)])
    res = []
    for l in t.out.splitlines():
        if l.startswith('"HIST '):
            res.append(json.loads(json.loads(l)[5:]))
    if not res:
        raise vt.CheckError("no histories generated:\n" + t.out[-2000:])
    m = re.search(r"number of states generated: (\d+)", t.out)
    c.models.append({"model": "StreamGen (simulation)", "behaviours": len(res), "states_generated": int(m.group(1)) if m else 0})
    return res


def concretise(rng, gen, tag):
    """gives the generated operations data, and finalises what is still alive"""
    out = []
    for i, ops in enumerate(gen):
        res, live = [], set()
        for o in ops:
            k, c = o["o"], o["c"]
            if k == "i":
                x = seed(rng)
                res.append(("i", c, x, x if rng.random() < 0.15 else seed(rng))); live.add(c)
            elif k == "u": res.append(("u", c, message(rng, o["n"])))
            elif k == "k": res.append(("k", c, o["d"])); live.add(o["d"])
            elif k in "fg": res.append((k, c)); live.discard(c)
            elif k == "w": res.append(("w", c))
        for c in sorted(live):
            dead = [d for d in (1, 2, 3, 4) if d not in live]
            if dead:
                res += both_finals(c, dead[0])
            else:
                res.append((rng.choice("fg"), c))
            live.discard(c)
        out.append(History(f"{tag}{i}", res))
    return out


def transitions(rng, tag, maxlen=100, step=1):
    """one history for every transition (fill level, piece length) of the buffer"""
    out = []
    for p in range(32):
        for n in range(0, maxlen + 1, step):
            pre = [p]
            if p and rng.random() < 0.3:
                k = rng.randrange(p + 1); pre = [k, p - k]
            if rng.random() < 0.2:
                pre = [rng.choice([32, 64, 96])] + pre
            ops = [("w", 1), ("i", 1, seed(rng), seed(rng))] + [("u", 1, message(rng, k)) for k in pre]
            ops.append(("u", 1, message(rng, n)))
            if rng.random() < 0.3:
                ops.append(("u", 1, message(rng, rng.randrange(40))))
            out.append(History(f"{tag}{p}.{n}", ops + both_finals(1, 2)))
    return out


def splits(rng, tag, count, maxlen):
    """random messages, cut at random"""
    out = []
    for i in range(count):
        left = int(2 ** rng.uniform(0, maxlen.bit_length()))
        ops = [("i", 1, seed(rng), seed(rng))]
        style = rng.randrange(4)
        while left > 0:
            n = {0: rng.randrange(0, 8), 1: rng.randrange(0, 80), 2: rng.choice([1, 31, 32, 33, 64]),
                 3: rng.randrange(0, 600)}[style]
            n = min(n, left)
            ops.append(("u", 1, message(rng, n)))
            left -= n
            if len(ops) > 120:
                break
        out.append(History(f"{tag}{i}", ops + both_finals(1, 3)))
    return out


def valid(r):
    return re.fullmatch(r"none|([0-9a-f]{16}(\+[0-9a-f]{16})?,?)+", r) is not None


def result_list(r):
    if r == "none":
        return []
    res = []
    for t in r.split(","):
        a = t.split("+")
        res.append([vt.limbs(int(a[0], 16)), vt.limbs(int(a[1], 16)) if len(a) > 1 else []])
    return res


def collect(c, bins, hs, variants, label, env=None, shard_env=None):
    nshard = max(1, min(vt.NCPU, len(hs) // 50 + 1))
    futs = []
    for k in range(nshard):
        p = c.work.path(f"{label}-{k}.hist")
        with open(p, "w") as f:
            for h in hs[k::nshard]:
                f.write(h.line())
        for name, b in bins.items():
            futs.append((name, c.work.pool.submit(vt.run_driver, b, p, str(variants), False, 0, 800, env)))
    obs, ops = {}, 0
    for name, f in futs:
        out, r = f.result()
        if out is None:
            raise vt.CheckError(f"driver {name} timed out")
        done = False
        for line in out.splitlines():
            t = line.split(" ")
            if t[0] == "R" and len(t) >= 5:
                obs.setdefault((t[1], t[2]), []).append((name, t[4]))
            elif t[0] == "DONE":
                done = True
                ops += int(t[2])
        if not done:
            last = [l for l in out.splitlines() if l.startswith("R ")]
            lid = last[-1].split(" ")[1] if last else "?"
            obs.setdefault((lid, f"died:{r.returncode}"), []).append((name, "at-or-after-this"))
    return obs, ops


def judge(c, hs, obs, label):
    byid = {h.id: h for h in hs}
    keys, rejected = [], []
    path = c.work.path(f"hist-{label}.ndjson")
    with open(path, "w") as f:
        for key in sorted(obs):
            hid, r = key
            h = byid.get(hid)
            want = sum(1 for o in h.ops if o[0] in "fg") if h else -1
            if h is None or not valid(r) or len(result_list(r)) != want:
                rejected.append((key, None))
                continue
            f.write(json.dumps({"id": str(len(keys)), "ops": h.json_ops(), "r": result_list(r)}) + "\n")
            keys.append(key)
    t = None
    if keys:
        t = c.work.tlc("ObsStream", env={"OBS": path}).require("histories of stream operations")
        hit = {}
        for m in re.finditer(r'"REJECT",\s*"(\d+)",\s*<<(.*?)>>,\s*(\d+)\s*>>\s*\n', t.out, re.S):
            hit.setdefault(keys[int(m.group(1))], (f"operation {m.group(3)}", re.sub(r"\s+", " ", m.group(2))))
        if t.out.count('"REJECT"') and not hit:
            raise vt.CheckError("could not parse TLC's rejections:\n" + t.out[-2000:])
        rejected += list(hit.items())
    return rejected, t, len(keys)


def run_histories(c, bins, hs, what, variants=6, label="hist", env=None):
    obs, ops = collect(c, bins, hs, variants, label, env)
    rejected, t, n = judge(c, hs, obs, label)
    if t is not None:
        c.model("ObsStream/" + label, t, "every recorded history is a behaviour of StreamExact; the incremental and the "
                                         "whole-message definition agree")
    c.traces += n
    c.coverage["operations_performed"] = c.coverage.get("operations_performed", 0) + ops
    if rejected:
        byid = {h.id: h for h in hs}
        ids = {k[0] for k, _ in rejected[:300]}
        used = {a for k, _ in rejected[:300] for a, _ in obs[k]}
        sub = [h for h in hs if h.id in ids]
        again = []
        if sub:
            obs2, _ = collect(c, {n: b for n, b in bins.items() if n in used}, sub, variants, label + "-again", env)
            rej2, _, _ = judge(c, sub, obs2, label + "-again")
            again = [(k, e, obs2[k]) for k, e in rej2]
        if not again:
            obs2, _ = collect(c, bins, hs, variants, label + "-rep", env)
            rej2, _, _ = judge(c, hs, obs2, label + "-rep")
            again = [(k, e, obs2[k]) for k, e in rej2]
        for k, e, w in again:
            c.violate(what, {"history": byid[k[0]].describe() if k[0] in byid else k[0], "observed": k[1][:300],
                             "specified": e, "where": [f"{a}:{b}" for a, b in w[:6]]})
        if not again:
            c.notes.append(f"{len(rejected)} rejections did not repeat")
    for h in hs[:: max(1, len(hs) // 3)][:3]:
        c.sample({"history": h.describe()})
    return obs
