"""C09: memory entitlement."""
import json, re, subprocess, os
import vt, cases, campaign, configs, chk_machines
from configs import *


def record(c, name, binpath, filt, fn, lo, hi, step, places):
    """one lackey run -> (context size, [(off, n)], {call: [accesses]}) or None"""
    # the log goes down the pipe (fd 9), the driver's own output to a file
    cmd = (f"timeout -k 5 400 valgrind -q --tool=lackey --trace-mem=yes --log-fd=9 {binpath} {fn} {lo} {hi} {step} {places} "
           f"9>&1 >{binpath}.{fn}.{lo}.calls 2>/dev/null | {filt}")
    r = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
    calls, ctx, done = [], 0, False
    for l in open(f"{binpath}.{fn}.{lo}.calls", errors="replace"):
        t = l.split()
        if t and t[0] == "CALL" and len(t) == 3: calls.append((int(t[1]), int(t[2])))
        elif t and t[0] == "CTX": ctx = int(t[1])
        elif t and t[0] in ("DONE", "NONE"): done = True
    acc, cur = {}, None
    for l in r.stdout.decode().splitlines():
        t = l.split()
        if t[0] == "B": cur = int(t[1]); acc[cur] = set()
        elif t[0] == "E": cur = None
        elif cur is not None: acc[cur].add((t[0], t[1], int(t[2]), int(t[3])))
    return name, fn, ctx, calls, acc, done


def c09(c):
    t = c.work.tlc("MemAccess", cfg="MemAccessDeep.cfg" if c.thorough else "MemAccess.cfg").require("MemAccess")
    c.model("MemAccess", t, "read strategies: in-page, exact, no foreign byte in a word, aligned units; every address x length x option")
    old = c.work.tlc("MemAccess", cfg="MemAccessOld.cfg")
    if "Invariant InPages is violated" not in old.out:
        raise vt.CheckError("the model no longer shows the defect repaired in b406e43:\n" + old.out[-1500:])
    c.coverage["negative_model"] = "MemAccessOld.cfg (without commit b406e43) violates InPages, as it should"

    # pages: the real code between inaccessible pages, in every read strategy
    cfgs = [NATIVE, M32, UNABLE, SLOW, UNABLE32, SLOW32, CALM, CALM32, UNABLE_CALM32, SLOW_CALM, CLANG, CLANG32,
            Config("clang-slow32", cc="clang", opt="-O2", m32=True, defs=[UN(1)]), O0, WIN64]
    bins = campaign.build(c, cfgs)
    fns = campaign.runnable(cases.ALL64)
    n = 420 if c.thorough else 170
    cs = []
    for f in fns:
        for k in range(n):
            cs.append(vt.Case(f"{f}.{k}", f, ("p", c.rng.randrange(300), k), c.rng.getrandbits(64), c.rng.getrandbits(64)))
        for k in (254, 255, 256, 257, 512, 777, 1000, 1024, 2049, 4095, 4096, 4097, 5000, 8191):
            cs.append(vt.Case(f"{f}.l{k}", f, ("p", c.rng.randrange(300), k), c.rng.getrandbits(64), c.rng.getrandbits(64)))
    campaign.run_cases(c, bins, cs, "a call faults, or writes, next to its message", places="full", label="guard-pages")
    c.coverage["guard_page_cases"] = len(cs)
    c.coverage["configurations"] = sorted(bins)

    # ASan: exact, whatever the options (its own poisoned surroundings)
    ab = campaign.build(c, [ASAN, Config("asan-clang", cc="clang", opt="-O1", defs=[NOIFUNC], extra=["-fsanitize=address", "-fsanitize-recover=address"]),
                            Config("asan-unable", opt="-O1", defs=[UN(0), NOIFUNC], extra=["-fsanitize=address", "-fsanitize-recover=address"])],
                        required=())
    if ab:
        env = {"ASAN_OPTIONS": "halt_on_error=0:detect_leaks=0:handle_segv=0:allow_user_segv_handler=1:log_path=/dev/null"}
        sub = [k for k in cs if k.m[2] < (170 if c.thorough else 100)]
        campaign.run_cases(c, ab, sub, "a sanitised build reads outside the message", places="full", exact=True,
                           label="asan", env=env)
        c.coverage["asan_cases"] = len(sub)

    # big-endian and other machines, emulated: exact in calm builds, pages in the others
    chk_machines.accesses(c)

    # recorded accesses: exact in calm builds, pages in the others, stores everywhere
    filt = c.work.path("acclog")
    r = vt.run(["gcc", "-O2", os.path.join(vt.DRV, "acclog.c"), "-o", filt])
    if r.returncode:
        raise vt.CheckError("acclog: " + r.stderr.decode())
    modes = {"native": "pages", "m32": "pages", "unable": "pages", "slow32": "pages", "calm": "exact", "calm32": "exact",
             "unable-calm": "exact", "slow-calm32": "exact", "clang-calm": "exact", "O0-calm": "exact"}
    cfgs = [NATIVE, M32, UNABLE, SLOW32, CALM, CALM32, UNABLE_CALM, SLOW_CALM32,
            Config("clang-calm", cc="clang", opt="-O2", defs=[ONESHOT0]),
            Config("O0-calm", opt="-O0", ndebug=False, defs=[ONESHOT0])]
    lb = c.work.build_many(cfgs, drivers=("accdrv.c",), extra=["-static"], tag="-acc")
    jobs = []
    top = 140 if c.thorough else 72
    for cfg in cfgs:
        if not isinstance(lb[cfg.name], str):
            c.notes.append(f"{cfg.name} not built for recording: {lb[cfg.name].text[:200]}")
            continue
        exact = modes[cfg.name] == "exact"
        for f in ["2a64", "2a128", "1le", "1be", "0le", "0be"] + ([] if cfg.m32 else [x for x in ("aes", "avx", "avx2") if x in fns]):
            jobs.append((cfg.name, lb[cfg.name], filt, f, 0, top, 1, "all" if exact or c.thorough else "some"))
            if f.startswith("a"):
                jobs.append((cfg.name, lb[cfg.name], filt, f, top + 1, 300, 1 if c.thorough else 3, "some"))
        for p in ((0, 1, 8, 13, 31) if not c.thorough else range(32)):
            jobs.append((cfg.name, lb[cfg.name], filt, f"u{p}", 0, top, 1, "some"))
        jobs += [(cfg.name, lb[cfg.name], filt, k, 0, 0, 1, "some") for k in "fg"]

    def execute(jobs):
        futs = [c.work.pool.submit(record, c, *j) for j in jobs]
        recs, index = [], []
        for f in futs:
            name, fn, ctx, calls, acc, done = f.result()
            if not done:
                c.notes.append(f"recording {name}/{fn} did not finish")
                continue
            for k, (off, n) in enumerate(calls):
                if k not in acc:
                    raise vt.CheckError(f"no accesses recorded for call {k} of {name}/{fn}")
                stream = fn[0] in "ufg" and fn not in cases.ALL64
                recs.append({"id": str(len(recs)), "f": fn, "mode": modes[name], "a": off, "n": n,
                             "ctx": [4096 - ctx, 4095] if stream else [],
                             "ext": [4088, 4095] if fn in ("2a128", "g") else [],
                             "acc": [list(a) for a in sorted(acc[k])]})
                index.append((name, fn, off, n))
        return recs, index

    def verdict(recs, index):
        path = c.work.path("acc.ndjson")
        with open(path, "w") as f:
            for r in recs:
                f.write(json.dumps(r) + "\n")
        t = c.work.tlc("ObsAccess", env={"OBS": path}).require("recorded accesses")
        bad = []
        for m in re.finditer(r'"REJECT",\s*"(\d+)",\s*<<(.*?)>>\s*>>', t.out, re.S):
            bad.append((index[int(m.group(1))], m.group(2)))
        return t, bad

    recs, index = execute(jobs)
    if not recs:
        raise vt.CheckError(f"nothing was recorded: {c.notes}")
    t, bad = verdict(recs, index)
    c.model("ObsAccess", t, "every recorded access of every recorded call is one the call is entitled to")
    c.traces += len(recs)
    c.coverage["recorded_calls"] = len(recs)
    c.coverage["recorded_accesses"] = sum(len(r["acc"]) for r in recs)
    if recs:
        c.sample(recs[len(recs) // 2])
    if bad:
        names = {(b[0][0], b[0][1]) for b in bad}
        recs, index = execute([j for j in jobs if (j[0], j[3]) in names])
        t, bad = verdict(recs, index)
        for (name, fn, off, n), a in bad[:200]:
            c.violate("access the call is not entitled to", {"configuration": name, "function": fn, "offset_in_arena": off,
                                                             "length": n, "access": a, "mode": modes[name]})
    c.assumptions += ["x86 instruction-level accesses as recorded by valgrind's lackey are those of the compiled code",
                      "32-bit AES variants are observed with guard pages and ASan-less builds only (valgrind cannot execute them)"]
