"""C20: the static library, as each build description of the project makes it."""
import json, os, re, xml.etree.ElementTree as ET
import vt, campaign, chk_build, chk_shared
from vt import Config
from mock import Bld
from chk_options import host_cpu
from chk_shared import FIXED, pick

VS = ["Debug|Win32", "Release|Win32", "Debug|x64", "Release|x64"]
VSARCH = {"NoExtensions": [], "StreamingSIMDExtensions2": [], "NotSet": [], "AdvancedVectorExtensions": ["-mavx"],
          "AdvancedVectorExtensions2": ["-mavx2"]}


def globals_of(paths):
    r = vt.run(["nm", "-g", "--defined-only"] + paths)
    if r.returncode: raise vt.CheckError("nm: " + r.stderr.decode()[-500:])
    names = {l.split()[2] for l in r.stdout.decode().splitlines() if len(l.split()) == 3}
    return sorted({n for n in names if n.startswith("t1ha")}), \
        sorted({n for n in names if not n.startswith(("t1ha", "_", ".", "?"))})[:20]      # leading underscores are the toolchain's


def project(name, conf):
    """what a Visual Studio project says: [(source, instruction set)], definitions, optimised"""
    ns = "{http://schemas.microsoft.com/developer/msbuild/2003}"
    root = ET.parse(os.path.join(vt.REPO, name)).getroot()
    want = f"=='{conf}'"
    files = []
    for e in root.iter(ns + "ClCompile"):
        if not e.get("Include"): continue
        arch = "NotSet"
        for x in e.findall(ns + "EnableEnhancedInstructionSet"):
            if want in x.get("Condition", want): arch = (x.text or "").strip()
        out = [x for x in e.findall(ns + "ExcludedFromBuild") if want in x.get("Condition", want) and (x.text or "") == "true"]
        if not out: files.append((e.get("Include").replace("\\", "/"), arch))
    defs, opt = [], "-O0"
    for g in root.findall(ns + "ItemDefinitionGroup"):
        if want not in g.get("Condition", ""): continue
        for x in g.iter(ns + "PreprocessorDefinitions"):
            defs = [d for d in (x.text or "").split(";") if d and not d.startswith("%")]
        for x in g.iter(ns + "Optimization"):
            opt = {"Disabled": "-O0", "MinSpace": "-Os"}.get((x.text or "").strip(), "-O2")
    return files, defs, opt


def programs(work, d, b, names, have, ucc, m, defs, lib, k):
    src = os.path.join(d, "api.c")
    with open(src, "w") as f: f.write(chk_build.api_program(names, have))
    with open(src + "c", "w") as f: f.write(chk_build.api_program(names, have))
    pic = [["-fPIE", "-pie"], ["-fno-pic", "-no-pie"], ["-fPIC", "-pie"]][k % 3]
    cxx = {"gcc": "g++", "clang": "clang++"}[ucc]
    return {"c": [ucc, "-std=gnu11", "-w", "-O2"] + m + pic + defs + ["-I", vt.REPO, src, "-o", d + "/c"] + lib,
            "c++": [cxx, "-x", "c++", "-std=c++11", "-w", "-O1"] + m + pic + defs + ["-I", vt.REPO, src + "c", "-x", "none", "-o", d + "/cpp"] + lib}


def look(base, progs):
    out = []
    for how, cmd in progs.items():
        r = vt.run(cmd)
        if r.returncode:
            out.append(dict(base, how=how, why=r.stderr.decode(errors="replace")[-800:]))
            continue
        vals, selfs, end, why = run(cmd[cmd.index("-o") + 1])
        if not end: selfs.append({"k": "t1ha_selfcheck__all_enabled", "rc": -99})
        out.append(dict(base, how=how, linked=True, vals=vals, selfs=selfs, why=why))
    return out


def run(path):
    try:
        r = vt.run([path], timeout=100)
        text, rc = r.stdout.decode(errors="replace"), r.returncode
    except vt.subprocess.TimeoutExpired:
        text, rc = "", "timeout"
    vals, selfs, end = [], [], False
    for l in text.splitlines():
        t = l.split()
        if t[0] == "V" and len(t) == 5:
            vals.append({"k": t[1], "n": int(t[2]), "r": vt.limbs(int(t[3], 16)), "e": [] if t[4] == "-" else vt.limbs(int(t[4], 16))})
        elif t[0] == "S": selfs.append({"k": t[1], "rc": int(t[2])})
        elif t[0] == "END": end = True
    return vals, selfs, end, "" if end else f"ended with {rc}: {text[-200:]}"


def one(work, rec, by, cc, ucc, kind, tag, have):
    b = rec["build"]
    bld = Bld(tag, dis=b["dis"], aes=b["aes"], rt=b["rt"], ifunc=b["ifunc"], m32=b["word"] == 32, usedef=b["def"], cc=cc)
    base = {"by": by, "build": bld.spec, "cpu": host_cpu(have), "host": sorted(have & {"aes", "avx", "avx2"}), "tag": tag, "made": True,
            "linked": False, "vals": [], "selfs": [], "symbols": [], "others": [], "why": "", "with": f"{by} {cc} {kind}"}
    defs = ["-D" + x for x in bld.cfg.defs]
    m = ["-m32"] if b["word"] == 32 else []
    if by == "make": d, lib, err = chk_shared.make(work, tag, cc, m + defs, "libt1ha.a")
    else: d, lib, err = chk_shared.meson(work, tag, cc, m + defs, kind)
    if not lib: return [dict(base, how="none", made=False, why="library: " + err)]
    base["symbols"], base["others"] = globals_of([lib])
    names = [n for n in rec["names"] if n in base["symbols"] or n == "t1ha0"]
    k = sum(map(ord, tag))
    return [dict(base, how="none")] + look(base, programs(work, d, b, names, have, ucc, m, defs, [lib], k))


def studio(work, builds, name, conf, tag, have):
    """a Visual Studio project's library, by clang in Microsoft's place"""
    files, defs, opt = project(name, conf)
    win32 = conf.endswith("Win32")
    b = {"word": 32 if win32 else 64, "dis": [], "aes": True, "rt": True, "ifunc": False, "def": False}
    rec = next(r for r in builds if all(r["build"][k] == v for k, v in b.items()))
    bld = Bld(tag, dis=[], aes=True, rt=True, ifunc=False, m32=win32, kind="msvc32" if win32 else "msvc64", plain=True)
    base = {"by": "vs", "build": bld.spec, "cpu": host_cpu(have), "host": sorted(have & {"aes", "avx", "avx2"}), "tag": tag, "made": True,
            "linked": False, "vals": [], "selfs": [], "symbols": [], "others": [], "why": "", "with": f"{name} {conf}"}
    cfg = Config(tag, kind="msvc32" if win32 else "msvc64", m32=win32, opt=opt, ndebug="NDEBUG" in defs, defs=[d for d in defs if d != "NDEBUG"])
    objs = []
    for s, arch in files:
        o = work.path(f"{tag}-{os.path.basename(s)}.o")
        src = os.path.join(vt.REPO, s)
        # Microsoft's compiler lets any file use AES instructions
        cmd = [x for x in work.foreign(cfg, src) if not x.startswith("-m") or x in vt.KINDS[cfg.kind] or "probe" in x or "zone" in x]
        cmd = cmd[:-1] + (["-maes"] if "ia32aes" in s else []) + VSARCH[arch] + [src, "-fno-pic", "-c", "-o", o]
        r = vt.run(cmd)
        if r.returncode: return [dict(base, how="none", made=False, why=r.stderr.decode(errors="replace")[-800:])]
        objs.append(o)
    base["symbols"], base["others"] = globals_of(objs)
    return [dict(base, how="none")]


def c20(c):
    campaign.published(c)
    p = c.work.path("builds.ndjson")
    c.work.tlc("BuildGen", env={"OUT": p}).require("BuildGen")
    builds = [json.loads(l) for l in open(p)]
    have = campaign.cpu_flags()
    sel = [pick(builds, w) for w in FIXED]
    rest = [r for r in builds if r not in sel]
    sel += rest if c.thorough else c.rng.sample(rest, 6)
    jobs = []
    for i, r in enumerate(sel):
        for by in ("make", "meson"):
            ccs = [("gcc", "gcc"), ("clang", "gcc"), ("gcc", "clang")]
            for a, b in ccs if c.thorough else [ccs[(i + c.seed + (by == "make")) % 3]]:
                jobs.append((r, by, a, b, ["plain", "release", "debug", "minsize"][len(jobs) // 2 % 4], f"p{len(jobs)}"))

    vs = [(n, k, f"vs{i}{j}") for i, n in enumerate(("t1ha-static.vcxproj", "t1ha-dll.vcxproj")) for j, k in enumerate(VS)
          if os.path.exists(os.path.join(vt.REPO, n))]

    def execute(jobs, vs):
        recs = []
        for out in c.work.pool.map(lambda j: one(c.work, *j, have), jobs): recs += out
        for out in c.work.pool.map(lambda j: studio(c.work, builds, *j, have), vs): recs += out
        for i, r in enumerate(recs): r["id"] = str(i)
        return recs

    def verdict(recs):
        path = c.work.path("package.ndjson")
        with open(path, "w") as f:
            for r in recs: f.write(json.dumps({k: v for k, v in r.items() if k not in ("tag", "why", "with")}) + "\n")
        t = c.work.tlc("ObsPackage", env={"OBS": path}).require("static libraries")
        bad = [(recs[int(m.group(1))], m.group(2)) for m in re.finditer(r'"REJECT",\s*"(\d+)",\s*"(.*?)"\s*>>', t.out, re.S)]
        if t.out.count('"REJECT"') != len(bad): raise vt.CheckError("could not parse the rejections:\n" + t.out[-1500:])
        return t, bad

    recs = execute(jobs, vs)
    t, bad = verdict(recs)
    if bad:
        tags = {r["tag"] for r, _ in bad}
        recs2 = execute([j[:-1] + (j[-1] + "r",) for j in jobs if j[-1] in tags], [j[:-1] + (j[-1] + "r",) for j in vs if j[-1] in tags])
        t2, bad = verdict(recs2)
        for r, why in bad[:200]:
            c.violate("the library is not as specified", {"by": r["by"], "faults": re.sub(r'\\+"', "'", why), "with": r["with"], "build": r["build"],
                      "how": r["how"], "why": r["why"], "others": r["others"], "selfs": [s for s in r["selfs"] if s["rc"]]})
    c.model("ObsPackage", t, "each library defines what is specified, and its users get the specified values")
    c.traces += len(recs)
    c.coverage["libraries"] = len(jobs) + len(vs)
    c.coverage["programs_run"] = sum(1 for r in recs if r["linked"])
    c.sample({k: recs[0][k] for k in ("by", "build", "symbols")})
    c.sample({k: (v if k != "vals" else v[:5]) for k, v in recs[1].items() if k in ("by", "build", "how", "vals", "selfs")})
    c.assumptions += ["make and meson as installed here; clang stands for Microsoft's compiler with the project files' sources, "
                      "definitions and instruction sets"]
