"""C17: full 64-bit lengths, beyond 4 GiB in calls and in streams."""
import vt, cases, campaign, longs, machines
from vt import Config
from configs import *
from longs import Long

G = 1 << 30


def totals(c):
    t = {}
    for m in ("wide", "small"):
        for k in ("total", "size", "shift"):
            t[m, k] = c.work.pool.submit(c.work.tlc, "Totals", None, {"MACHINE": m, "COUNTER": k}, 2)
    for m in ("wide", "small"):
        c.model(f"Totals/{m}", t[m, "total"].result().require("Totals"), "the accounted length determines the padding, whatever the pieces")
    for m, k in (("small", "size"), ("small", "shift"), ("wide", "shift")):
        if "Invariant LengthCounts is violated" not in t[m, k].result().out:
            raise vt.CheckError(f"Totals does not tell Counter = {k} on {m}")
    c.coverage["negative_models"] = ["size on small", "shift on small", "shift on wide"]


def c17(c):
    rng = c.rng
    r64 = lambda: rng.getrandbits(64)
    totals(c)
    campaign.published(c)
    longs.models(c)
    nopie = lambda n, **k: Config(n, m32=True, extra=["-fno-pie", "-no-pie"] , **k)
    cfg64 = [NATIVE, CLANG, UNABLE, SLOW_CALM, WIN64] + ([CALM, SLOW, NOINT128, O0, UNABLE_CALM] if c.thorough else [])
    cfg32 = [nopie("m32-nopie"), nopie("unable32-nopie", defs=[UN(0)])] + \
        ([nopie("clang32-nopie", cc="clang", opt="-O2"), nopie("slow-calm32-nopie", defs=[UN(1), ONESHOT0])] if c.thorough else [])
    bins = campaign.build(c, cfg64 + cfg32, drivers=("longdrv.c",))
    fns = campaign.runnable(cases.ALL64)
    atonce = [f for f in fns if f not in ("2s64", "2s128")]
    small = lambda: rng.randrange(1, 300)
    # lengths whose low 32 or 31 bits alone would be another, shorter, message
    lens64 = [2 * G + small(), 4 * G + rng.choice([0, 1, 5, 16, 31]), 4 * G + 33 + small(), 4 * G - small()]
    if c.thorough:
        lens64 += [4 * G + rng.randrange(2 * G), 2 * G - small(), 2 * G, 8 * G + small(), 12 * G + rng.randrange(G), 16 * G + 7]
    mids = [rng.randrange(1 << 16, 1 << 20) for _ in range(3)] + [rng.randrange(1 << 20, 1 << 26) for _ in range(3)] + \
        [(1 << 16) * 16 + small(), (1 << 16) * 32 + small(), (1 << 16) * 128 + small(), (1 << 24) + small()]
    shared = []      # at once, on every 64-bit build
    for f in atonce:
        for n in lens64 + (mids if f != "avx" else mids[:3]):
            shared.append((f, n, rng.choice([0, 1, 3, 4, 8]), r64()))
    if not c.thorough:
        shared = [s for k, s in enumerate(shared) if not (s[1] >= 4 * G - 300 and s[0] in ("avx",) and k % 2)]
    tot = [G // 2 - small(), G // 2 + small(), 2 * G + small(), 4 * G + 3, 4 * G + G // 2 + small()] + \
        ([8 * G + small(), 4 * G - 1, 4 * G, 12 * G + small(), 32 * G + small()] if c.thorough else [])
    cuts64 = ["-", "268435456", "1048577", "4294967290*1,1*20,1000003"]
    cuts32 = ["268435456", "1048575", "536870900*1,1*50,33554433", f"{2 * G - 9}*1,7*3,{G + 5}"]
    streams = []
    for f in ("2s64", "2s128"):
        for n in tot:
            streams.append((f, n, rng.choice([0, 1, 4]), r64(), r64()))
    jobs = []
    for k, cfg in enumerate(cfg64):
        if cfg.name not in bins: continue
        cs = []
        for i, (f, n, o, x) in enumerate(shared):
            # every build hashes every length; the slowest combinations take turns
            if not c.thorough and n > G and f in ("0le", "0be", "1be") and (i + k) % 2 and cfg is not NATIVE: continue
            cs.append(Long(f"a{i}.{k}", f, n, 0, o, x))
        for i, (f, n, o, x, y) in enumerate(streams):
            for q, cut in enumerate(cuts64):
                if c.thorough or (i + k + q) % 4 == 0:
                    cs.append(Long(f"s{i}.{k}.{q}", f, n, 0, o, x, y, cut))
        # spread over processes by work
        parts = [[] for _ in range(4)]
        load = [0] * 4
        for x in sorted(cs, key=lambda x: -x.n):
            j = load.index(min(load))
            parts[j].append(x)
            load[j] += x.n + (1 << 24)
        jobs += [(cfg.name, bins[cfg.name], p) for p in parts if p]
    # no object of a C program is larger than PTRDIFF_MAX: 2^31 - 1 bytes here
    lens32 = [2 * G - 1 - small(), G + small()] + ([2 * G - 5, G + rng.randrange(G // 2), G - small()] if c.thorough else [])
    for k, cfg in enumerate(cfg32):
        if cfg.name not in bins: continue
        cs = []
        shared32 = [(f, n, i % 5, 0x1234567890ABCDEF * (i + 1) & vt.M64) for i, (f, n) in
                    enumerate((f, n) for f in atonce for n in (lens32 if f != "avx" else lens32[:1]) + mids[:2])]
        for i, (f, n, o, x) in enumerate(shared32):
            if c.thorough or n < G or (i + k) % 2 == 0:
                cs.append(Long(f"a{i}.{k}", f, n, 0, o, x))
        for i, (f, n, o, x, y) in enumerate(streams):
            for q, cut in enumerate(cuts32):
                if c.thorough and n < 9 * G or (i + k + q) % 4 == 0:
                    cs.append(Long(f"s{i}.{k}.{q}", f, n, 0, o, x, y, cut))
        parts = [[] for _ in range(6)]
        load = [0] * 6
        for x in sorted(cs, key=lambda x: -x.n):
            j = load.index(min(load))
            parts[j].append(x)
            load[j] += x.n + (1 << 24)
        jobs += [(cfg.name, bins[cfg.name], p) for p in parts if p]
    # streams on machines that are not here, emulated
    failed = {}
    ms = [machines.Machine(a) for a in ("arm64be", "mips64be", "mips32be", "arm32be")] + \
        ([machines.Machine(a) for a in ("arm64le", "sparc64be", "sparc32be", "mips32le")] if c.thorough else [])
    mb = machines.build(c.work, ms, failed)
    for n, t in failed.items(): c.notes.append(f"machine {n} not built: {t[:200]}")
    for k, m in enumerate(ms):
        if m.name not in mb: continue
        lens = [G // 2 + small()] + ([4 * G + 3 + small()] if m.name == "arm64be" or c.thorough else []) + ([2 * G + small()] if c.thorough else [])
        for i, n in enumerate(lens):
            f = ("2s64", "2s128")[(i + k) % 2]
            jobs.append((m.name, mb[m.name], [Long(f"e{k}.{i}", f, n, 0, rng.choice([0, 1, 4]), r64(), r64(), rng.choice(["1048576", "1048575", "1000003"]))]))
    jobs.sort(key=lambda j: -sum(x.n for x in j[2]))
    longs.check(c, jobs, "long", "hash of a long message")
    c.coverage["bytes_hashed"] = sum(x.n for _, _, cs in jobs for x in cs)
    c.coverage["calls"] = sum(len(cs) for _, _, cs in jobs)
    c.coverage["configurations"] = sorted(bins)
    c.coverage["machines"] = sorted(mb)
    c.coverage["longest"] = max(x.n for _, _, cs in jobs for x in cs)
    c.assumptions += ["messages have a period of 2^20 bytes (the same pages mapped repeatedly)",
                      "the walk over whole blocks is evaluated by compiled code, compared with the TLA+ fold by BulkCheck"]
