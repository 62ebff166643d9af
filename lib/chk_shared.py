"""C18: the shared library."""
import json, os, re, shutil
import vt, cases, campaign, chk_build
from vt import Config
from mock import Bld
from chk_options import host_cpu
from chk_reent import choice

FIXED = [dict(), dict(word=32, ifunc=False), dict(ifunc=False), dict(aes=False, rt=False), dict(aes=False, rt=False, word=32),
         dict(aes=False, word=32, dis=[2]), dict(aes=False, rt=False, dis=[1, 2]), dict(dis=[1]), dict(dis=[0]), dict(dis=[2], ifunc=False)]
DEF = dict(word=64, dis=[], aes=True, rt=True, ifunc=True)


def pick(builds, want):
    full = dict(DEF, **want)
    full["ifunc"] = full["ifunc"] and full["rt"]
    if full.get("word") == 32: full["ifunc"] = False
    full["def"] = False
    for r in builds:
        if all(r["build"][k] == v for k, v in full.items()): return r
    raise vt.CheckError(f"no such build {full}")


CLEAN = {"CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "MAKEFLAGS", "CC", "CXX", "LD", "AR"}


def make(work, tag, cc, extra, target="libt1ha.so"):
    """the project's own library, built by its own Makefile in a scratch copy; None if it does not build"""
    d = work.path("so-" + tag)
    os.makedirs(d)
    for x in ("t1ha.h", "Makefile"): shutil.copy2(os.path.join(vt.REPO, x), d)
    shutil.copytree(os.path.join(vt.REPO, "src"), os.path.join(d, "src"))
    r = vt.run(["make", "-s", "-C", d, target, f"CC={cc}", "T1HA_EXTRA_CFLAGS=" + " ".join(extra)],
               env={k: v for k, v in os.environ.items() if k not in CLEAN})
    so = os.path.join(d, target)
    return d, (so if r.returncode == 0 and os.path.exists(so) else None), r.stderr.decode(errors="replace")[-800:]


def meson(work, tag, cc, extra, kind):
    """the same by meson"""
    d = work.path("ms-" + tag)
    os.makedirs(d)
    for x in ("t1ha.h", "meson.build"): shutil.copy2(os.path.join(vt.REPO, x), d)
    shutil.copytree(os.path.join(vt.REPO, "src"), os.path.join(d, "src"))
    env = dict({k: v for k, v in os.environ.items() if k not in CLEAN}, CC=cc)
    r = vt.run(["meson", "setup", d + "/b", d, "--buildtype=" + kind, "-Dc_args=" + " ".join(extra), "-Dwarning_level=1"], env=env)
    if r.returncode == 0: r = vt.run(["ninja", "-C", d + "/b"], env=env)
    a = d + "/b/libt1ha.a"
    if r.returncode or not os.path.exists(a): return d, None, (r.stdout + r.stderr).decode(errors="replace")[-800:]
    # what meson calls a library refers to its objects where they lie
    return d, a, ""


def symbols(so):
    r = vt.run(["nm", "-D", "--defined-only", so])
    names = [l.split()[-1].split("@")[0] for l in r.stdout.decode().splitlines() if l.split()]
    return sorted({n for n in names if not n.startswith("_")})


def one(work, rec, cc, ucc, tag, have):
    """one library and its users -> records, and what a wide test of it needs"""
    b = rec["build"]
    bld = Bld(tag, dis=b["dis"], aes=b["aes"], rt=b["rt"], ifunc=b["ifunc"], m32=b["word"] == 32, usedef=b["def"], cc=cc)
    base = {"build": bld.spec, "cpu": host_cpu(have), "host": sorted(have & {"aes", "avx", "avx2"}), "tag": tag,
            "linked": False, "vals": [], "selfs": [], "symbols": [], "why": ""}
    defs = ["-D" + x for x in bld.cfg.defs]
    m = ["-m32"] if b["word"] == 32 else []
    d, so, err = make(work, tag, cc, m + defs)
    if not so: return [dict(base, how="c", why="library: " + err)], None
    base["symbols"] = symbols(so)
    names = [n for n in rec["names"] if n not in ("t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2")]
    out = [dict(base, how="none")]
    src = os.path.join(d, "api.c")
    with open(src, "w") as f: f.write(chk_build.api_program(names, have))
    shutil.copy2(src, os.path.join(d, "api.cc"))
    k = sum(map(ord, tag))
    pic = [["-fPIE", "-pie"], ["-fno-pic", "-no-pie"], ["-fPIC", "-pie", "-fno-plt"]][k % 3]
    link = ["-L", d, "-lt1ha", "-Wl,-rpath," + d]
    cxx = {"gcc": "g++", "clang": "clang++"}[ucc]
    progs = {
        "c": [ucc, "-std=gnu11", "-w", "-O2"] + m + pic + defs + ["-Dt1ha_IMPORTS", "-I", vt.REPO, src, "-o", d + "/c"] + link,
        "c++": [cxx, "-std=c++11", "-w", "-O1"] + m + pic + defs + ["-Dt1ha_IMPORTS", "-I", vt.REPO, d + "/api.cc", "-o", d + "/cpp"] + link,
        "dlopen": [ucc, "-std=gnu11", "-w", "-O1"] + m + defs + ["-I", vt.REPO, src, os.path.join(vt.DRV, "dlshim.c"), "-o", d + "/dl", "-ldl"],
    }
    envs = {"c": [{}, {"LD_BIND_NOW": "1"}], "c++": [{}], "dlopen": [{"VERIF_DLMODE": x} for x in ("lazy", "now", "global")]}
    for how, cmd in progs.items():
        r = vt.run(cmd)
        if r.returncode:
            out.append(dict(base, how=how, why=r.stderr.decode(errors="replace")[-800:]))
            continue
        for e in envs[how]:
            try:
                r = vt.run([cmd[cmd.index("-o") + 1]], timeout=100, env=dict(os.environ, VERIF_DL=so, **e))
                text, rc = r.stdout.decode(errors="replace"), r.returncode
            except vt.subprocess.TimeoutExpired:
                text, rc = "", "timeout"
            vals, selfs, end = [], [], False
            for l in text.splitlines():
                t = l.split()
                if t[0] == "V" and len(t) == 5:
                    kk = t[1] if t[1] != "t1ha2_final128" else t[1]
                    vals.append({"k": kk, "n": int(t[2]), "r": vt.limbs(int(t[3], 16)), "e": [] if t[4] == "-" else vt.limbs(int(t[4], 16))})
                elif t[0] == "S": selfs.append({"k": t[1], "rc": int(t[2])})
                elif t[0] == "END": end = True
            if not end: selfs.append({"k": "t1ha_selfcheck__all_enabled", "rc": -99})
            out.append(dict(base, how=how, linked=True, vals=vals, selfs=selfs, why="" if end else f"{e} ended with {rc}: {text[-200:]}"))
    wide = None
    drv = vt.run([ucc, "-std=gnu11", "-w", "-O2"] + m + pic + defs + ["-Dt1ha_IMPORTS", "-DVIA_SHARED", "-I", vt.REPO, "-I", vt.DRV,
                  os.path.join(vt.DRV, "hashdrv.c"), "-o", d + "/wide"] + link)
    if drv.returncode == 0: wide = (bld, d + "/wide")
    return out, wide


def c18(c):
    campaign.published(c)
    p = c.work.path("builds.ndjson")
    c.work.tlc("BuildGen", env={"OUT": p}).require("BuildGen")
    builds = [json.loads(l) for l in open(p)]
    have = campaign.cpu_flags()
    sel = [pick(builds, w) for w in FIXED]
    rest = [r for r in builds if r not in sel]
    sel += rest if c.thorough else c.rng.sample(rest, 10)
    jobs = []
    for i, r in enumerate(sel):
        ccs = [("gcc", "gcc"), ("clang", "gcc"), ("gcc", "clang")]
        for a, b in ccs if c.thorough else [ccs[(i + c.seed) % 3]]:
            jobs.append((r, a, b, f"s{len(jobs)}"))

    def execute(jobs):
        recs, wides = [], []
        for out, w in c.work.pool.map(lambda j: one(c.work, *j, have), jobs):
            recs += out
            if w: wides.append(w)
        for i, r in enumerate(recs): r["id"] = str(i)
        return recs, wides

    def verdict(recs):
        path = c.work.path("shared.ndjson")
        with open(path, "w") as f:
            for r in recs: f.write(json.dumps({k: v for k, v in r.items() if k not in ("tag", "why")}) + "\n")
        t = c.work.tlc("ObsShared", env={"OBS": path}).require("shared libraries")
        return t, [(recs[int(m.group(1))], m.group(2)) for m in re.finditer(r'"REJECT",\s*"(\d+)",\s*"(.*?)"\s*>>', t.out, re.S)]

    recs, wides = execute(jobs)
    t, bad = verdict(recs)
    if bad:
        tags = {r["tag"] for r, _ in bad}
        recs2, _ = execute([(a, b, x, k + "r") for a, b, x, k in jobs if k in tags])
        t2, bad = verdict(recs2)
        for r, why in bad[:60]:
            c.violate("the shared library is not as specified", {"build": r["build"], "how": r["how"], "faults": why, "why": r["why"],
                      "symbols": r["symbols"], "selfs": [s for s in r["selfs"] if s["rc"]]})
    c.model("ObsShared", t, "each library exports what is specified, and its users get the specified values")
    c.traces += len(recs)
    c.coverage["libraries"] = len(jobs)
    c.coverage["programs_run"] = sum(1 for r in recs if r["linked"])
    # values at large through the shared library
    fns = ["2a64", "2a128", "2s64", "2s128", "1le", "1be", "0le", "0be", "t1ha0"]
    cs = []
    for f in fns:
        for n in list(range(0, 1200 if c.thorough else 300)) + cases.long_lengths(c.rng, 8, 1 << 16):
            cs.append(vt.Case(f"{f}.{len(cs)}", f, ("p", c.rng.randrange(300), n), c.rng.getrandbits(64), c.rng.getrandbits(64)))
    groups = {}
    for bld, path in wides:
        if bld.spec["dis"]: continue
        groups.setdefault(choice(bld.cfg, have) if bld.spec["rt"] else choice(bld.cfg, set()), {})[bld.name] = path
    for name, bins in groups.items():
        def go(label):
            obs = vt.collect(c.work, bins, cs, "few", False, 40, label)
            return (obs,) + vt.judge(c.work, cs, obs, alias={"t1ha0": name})
        obs, rej, t, n = go("wide-" + name)
        if t is not None: c.model("ObsHash/" + name, t, "values through the shared library")
        c.traces += n
        if rej:
            obs, rej, t, n = go("again-" + name)
            byid = {x.id: x for x in cs}
            for k, e in rej[:50]:
                c.violate("a value through the shared library is wrong", campaign.explain(c, k, e, byid, obs[k]))
    c.coverage["wide_cases"] = len(cs)
    c.coverage["wide_libraries"] = sum(len(b) for b in groups.values())
    c.sample({k: recs[0][k] for k in ("build", "symbols")})
    c.sample({k: recs[1][k] for k in ("build", "how", "vals", "selfs")})
    c.assumptions += ["the library is built by the project's Makefile on this system's toolchain; users define t1ha_IMPORTS and the "
                      "same configuration macros as the library"]
