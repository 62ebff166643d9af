"""C10: build options."""
import itertools, json, re
import vt, cases, campaign, mock
from vt import Config

VALUES = {
    "un": ["auto", "0", "1", "2", "config"], "oneshot": ["auto", "0", "1"], "ifunc": ["auto", "0", "1"],
    "rt": ["auto", "0", "1"], "aes": ["auto", "0", "1"], "cc": ["gcc", "clang"],
    "opt": ["-O0", "-O1", "-O2", "-O3", "-Os"], "assert": ["yes", "no"], "target": ["64", "32", "32sse2"],
    "tune": ["generic", "native"], "std": ["c11", "c99", "gnu17"],
    "how": ["plain", "lto", "noinline", "nobuiltin", "uchar", "ubsan", "nopie", "common"],
}
HOW = {"plain": [], "lto": ["-flto"], "noinline": ["-fno-inline"], "nobuiltin": ["-ffreestanding"], "uchar": ["-funsigned-char"],
       "ubsan": ["-fsanitize=undefined"], "nopie": ["-fno-pic", "-no-pie"],
       "common": ["-fno-strict-aliasing", "-fstack-protector-all", "-fno-omit-frame-pointer"]}
MACRO = {"ifunc": "T1HA_USE_INDIRECT_FUNCTIONS", "rt": "T1HA0_RUNTIME_SELECT", "aes": "T1HA0_AESNI_AVAILABLE"}
LENS = (0, 1, 7, 8, 21, 31, 32, 33, 64, 100, 127, 128, 129, 200, 1000)


def config(row, name):
    defs = [f"{m}={row[k]}" for k, m in MACRO.items() if row[k] != "auto"]
    lib = []        # these two concern the library only
    if row["un"] == "config": lib.append("-DCONFIG_HAVE_EFFICIENT_UNALIGNED_ACCESS=1")
    elif row["un"] != "auto": lib.append("-DT1HA_SYS_UNALIGNED_ACCESS=" + row["un"])
    if row["oneshot"] != "auto": lib.append("-DT1HA_USE_FAST_ONESHOT_READ=" + row["oneshot"])
    c = Config(name, cc=row["cc"], opt=row["opt"], ndebug=row["assert"] == "no", m32=row["target"] != "64", defs=defs, libonly=lib)
    if row["tune"] == "native": c.extra.append("-march=native")
    elif row["target"] == "32": c.extra += ["-mno-sse2", "-mno-sse"]
    c.libonly.append("-std=" + row["std"])
    c.extra += HOW[row["how"]]
    if row["how"] == "lto" and row["cc"] == "clang": c.extra.append("-fuse-ld=lld")
    if c.m32 and row["ifunc"] == "1":     # on i386 an indirect function in the same module needs position-dependent code
        c.extra += ["-fno-pic", "-no-pie"]
    return c


def covering(rng, t, total):
    """rows covering every combination of t options' values, then random ones"""
    names = list(VALUES)
    todo = set()
    for os_ in itertools.combinations(range(len(names)), t):
        for vs in itertools.product(*(VALUES[names[i]] for i in os_)):
            todo.add(tuple(zip(os_, vs)))
    rows = []

    def gain(row):
        return [k for k in itertools.combinations(enumerate(row), t) if k in todo]
    order = sorted(todo)
    rng.shuffle(order)
    for seedk in order:
        if seedk not in todo: continue
        best = None
        for _ in range(12):
            row = [rng.choice(VALUES[n]) for n in names]
            for i, v in seedk: row[i] = v
            g = gain(row)
            if best is None or len(g) > len(best[1]): best = (row, g)
        rows.append(best[0])
        todo -= set(best[1])
    while len(rows) < total:
        rows.append([rng.choice(VALUES[n]) for n in names])
    return [dict(zip(names, r)) for r in rows]


def host_cpu(have):
    return {"max": 13, "aes": "aes" in have, "osxsave": "avx" in have, "avx": "avx" in have, "avx2": "avx2" in have,
            "noise": "zero"}


def offered(row):
    return [f for f in cases.ALL64 if row["aes"] != "0" or f not in ("aes", "avx", "avx2")]


def probe(c, name, binary):
    """self-check and t1ha0 of one build"""
    p = c.work.path(f"probe-{name}.txt")
    with open(p, "w") as f:
        f.write("s self z:0:0 0 0\n")
        for n in LENS:
            f.write(f"{n} t1ha0 p:5:{n} 9e3779b97f4a7c15 0\n")
    out, r = vt.run_driver(binary, p, "few", False, 4, 200)
    self_, disp = -99, []
    for l in (out or "").splitlines():
        t = l.split()
        if t[0] == "SELF": self_ = int(t[1])
        elif t[0] == "R":
            disp.append({"n": int(t[1]), "x": vt.limbs(0x9e3779b97f4a7c15),
                         "r": vt.limbs(int(t[2], 16)) if vt.is_word(t[2]) else []})
    if {d["n"] for d in disp} != set(LENS): disp = []
    return self_, disp


def c10(c):
    campaign.published(c)
    have = campaign.cpu_flags()
    host = [f for f in campaign.runnable(["aes", "avx", "avx2"])]
    rows = covering(c.rng, 3 if c.thorough else 2, 480 if c.thorough else 48)
    named = {f"o{i}": r for i, r in enumerate(rows)}
    fns = campaign.runnable(cases.ALL64)
    p = dict(dense=330, nsteer=60, nrand=60, nseed=8)
    cs = cases.value_cases(c.rng, fns, longs=cases.long_lengths(c.rng, 6, 1 << 15), **p)
    # all placements for short messages
    top = 140 if c.thorough else 48
    placed = [vt.Case(f"w{f}.{n}", f, ("p", c.rng.randrange(300), n), c.rng.getrandbits(64), c.rng.getrandbits(64))
              for f in fns for n in list(range(top)) + [64, 96, 127, 128, 135, 256]]

    def observe(names, partial, label):
        """builds and runs rows -> (rejections of ObsOptions, value observations are judged on the way)"""
        recs = []
        for k in range(0, len(names), 60):
            part = names[k:k + 60]
            bins = c.work.build_many([config(named[n], n) for n in part])
            ok = {n: b for n, b in bins.items() if isinstance(b, str)}
            obs = {}
            for aes in (True, False):
                sub = {n: b for n, b in ok.items() if (named[n]["aes"] != "0") == aes}
                mine = [x for x in cs if aes or x.fn not in ("aes", "avx", "avx2")]
                if sub:
                    obs[aes] = campaign.run_cases(c, sub, mine, "a build option changes a value", places="few",
                                                  label=f"{label}{k}{aes}")
                    campaign.run_cases(c, sub, [x for x in placed if aes or x.fn not in ("aes", "avx", "avx2")],
                                       "a build option changes a value", places="full", label=f"{label}{k}{aes}-placed")
            pr = dict(zip(ok, c.work.pool2.map(lambda n: probe(c, n, ok[n]), ok)))
            byid = {x.id: x.fn for x in cs}
            seen = {}
            for o in obs.values():
                for key, where in o.items():
                    for n in {w[0] for w in where}: seen.setdefault(n, set()).add(byid.get(key[0]))
            for n in part:
                b = n in ok
                recs.append({"id": n, "row": named[n], "cpu": host_cpu(have), "host": host, "built": b,
                             "self": pr[n][0] if b else -99, "dispatch": pr[n][1] if b else [],
                             "fns": sorted(x for x in seen.get(n, ()) if x), "why": "" if b else bins[n].text[:500]})
        path = c.work.path(f"options-{label}.ndjson")
        with open(path, "w") as f:
            for r in recs: f.write(json.dumps({k: v for k, v in r.items() if k != "why"}) + "\n")
        t = c.work.tlc("ObsOptions", env={"OBS": path, "PARTIAL": "yes" if partial else "no"}).require("option rows")
        byname = {r["id"]: r for r in recs}
        return t, recs, [(byname[m.group(1)], m.group(2)) for m in
                         re.finditer(r'"REJECT",\s*"(\w+)",\s*"(.*?)"\s*>>', t.out, re.S)]

    t, recs, bad = observe(list(named), False, "rows")
    if bad and not c.violations:
        t2, recs2, bad = observe([r["id"] for r, _ in bad], True, "again")
    for r, why in bad[:60]:
        c.violate("a build with these options is not right", {"row": r["row"], "faults": why, "why": r["why"], "self": r["self"]})
    c.model("ObsOptions", t, "each row builds, passes its self-check, dispatches as specified; the rows cover all pairs of option values")
    c.traces += len(recs)
    c.coverage["rows"] = len(recs)
    c.coverage["covering_strength"] = 3 if c.thorough else 2
    c.coverage["cases_per_row"] = len(cs) + len(placed)
    c.sample(recs[0])
    c.assumptions += ["options are given to library and user alike, as documented",
                      "an error that needs more than two (thorough: three) particular option values at once may be missed"]
