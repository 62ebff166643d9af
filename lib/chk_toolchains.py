"""C19: the library with other compilers, on Windows, on other platforms."""
import json, os, re
import vt, cases, campaign, chk_dispatch, machines
from vt import Config
from mock import Bld

TOOLS = list(vt.KINDS)
NOAES = ("bare64", "bare32", "gcc42-64", "gcc42-32", "msvc32-2013")      # compilers without the AES intrinsics


def defs(tool):
    return ["T1HA0_AESNI_AVAILABLE=0"] if tool in NOAES else []


def config(tool, un="auto", oneshot="auto", opt="-O2", asrt="no", n=""):
    d = defs(tool) + ([f"T1HA_SYS_UNALIGNED_ACCESS={un}"] if un != "auto" else []) + \
        ([f"T1HA_USE_FAST_ONESHOT_READ={oneshot}"] if oneshot != "auto" else [])
    if tool.startswith("e2k"): d.append("T1HA0_RUNTIME_SELECT=0")
    c = Config(f"{tool}{n}", kind=tool, m32="32" in tool, defs=d, opt=opt, ndebug=asrt == "no")
    c.row = {"tool": tool, "un": un, "oneshot": oneshot, "opt": opt, "assert": asrt}
    return c


VALUES = {"un": ["auto", "0", "1", "2"], "oneshot": ["auto", "0", "1"], "opt": ["-O0", "-O2", "-O3", "-Os"], "assert": ["yes", "no"]}


def rows(rng, pairs):
    """for every tool rows that contain every value (or pair of values) of the options"""
    res = []
    for t in TOOLS:
        if pairs:
            need = {(a, x, b, y) for a in VALUES for b in VALUES if a < b for x in VALUES[a] for y in VALUES[b]}
            mine = []
            while need:
                best, gain = None, -1
                for _ in range(60):
                    r = {k: rng.choice(v) for k, v in VALUES.items()}
                    g = sum(1 for a, x, b, y in need if r[a] == x and r[b] == y)
                    if g > gain: best, gain = r, g
                mine.append(best)
                need = {q for q in need if not (best[q[0]] == q[1] and best[q[2]] == q[3])}
        else:
            col = {}
            for k, v in VALUES.items():
                l = (v * 4)[:4]
                rng.shuffle(l)
                if k == "un" and l == ["auto", "0", "1", "2"]: l.reverse()
                col[k] = l
            mine = [{k: col[k][i] for k in VALUES} for i in range(4)]
        res += [config(t, r["un"], r["oneshot"], r["opt"], r["assert"], f"-{i}") for i, r in enumerate(mine)]
    return res


# --------------------------------------------------------------------------
# platforms, for the preprocessor and the front end only

def P(word, be=False, x86=False, traps=False, elf=True, known=True, e2k=False, noaes=False):
    return dict(word=word, be=be, x86=x86, e2k=e2k, traps=traps, elf=elf, known=known, noaes=noaes)


MSVC = vt._MSVC
PLATFORMS = {
    # name: (target, flags, platform, what tells the byte order)
    "x86-64": ("x86_64-linux-gnu", [], P(64, x86=True)),
    "i686": ("i686-linux-gnu", ["-msse2"], P(32, x86=True)),
    "x32": ("x86_64-linux-gnux32", [], P(32, x86=True)),
    "mingw64": ("x86_64-w64-windows-gnu", [], P(64, x86=True, elf=False)),
    "mingw32": ("i686-w64-windows-gnu", ["-msse2"], P(32, x86=True, elf=False)),
    "cygwin": ("x86_64-pc-cygwin", [], P(64, x86=True, elf=False)),
    "msvc64": ("x86_64-pc-windows-msvc", MSVC, P(64, x86=True, elf=False)),
    "msvc32": ("i686-pc-windows-msvc", MSVC, P(32, x86=True, elf=False)),
    "clangcl64": ("x86_64-pc-windows-msvc", vt._MS, P(64, x86=True, elf=False)),
    "clangcl32": ("i686-pc-windows-msvc", vt._MS, P(32, x86=True, elf=False)),
    "msvc-arm64": ("aarch64-pc-windows-msvc", MSVC, P(64, elf=False)),
    "msvc32-2013": ("i686-pc-windows-msvc", vt.KINDS["msvc32-2013"][1:], P(32, x86=True, elf=False, noaes=True)),
    "msvc-arm32": ("thumbv7-pc-windows-msvc", MSVC, P(32, elf=False)),
    "mac-x86": ("x86_64-apple-macosx", [], P(64, x86=True, elf=False)),
    "mac-arm": ("arm64-apple-macosx", [], P(64, elf=False)),
    "freebsd": ("x86_64-unknown-freebsd", [], P(64, x86=True)),
    "netbsd32": ("i386-unknown-netbsd", ["-msse2"], P(32, x86=True)),
    "arm64": ("aarch64-linux-gnu", [], P(64, known=False)),
    "arm64be": ("aarch64_be-linux-gnu", [], P(64, be=True, known=False)),
    "armv7": ("armv7-linux-gnueabihf", [], P(32)),
    "armv5": ("armv5te-linux-gnueabi", [], P(32, traps=True)),
    "armeb": ("armebv5te-linux-gnueabi", [], P(32, be=True, traps=True)),
    "ppc": ("powerpc-linux-gnu", [], P(32, be=True, known=False)),
    "ppc64": ("powerpc64-linux-gnu", [], P(64, be=True, known=False)),
    "ppc64le": ("powerpc64le-linux-gnu", [], P(64, known=False)),
    "s390x": ("s390x-linux-gnu", [], P(64, be=True)),
    "riscv32": ("riscv32-linux-gnu", [], P(32, traps=True, known=False)),
    "riscv64": ("riscv64-linux-gnu", [], P(64, traps=True, known=False)),
    "loongarch64": ("loongarch64-linux-gnu", [], P(64, known=False)),
    "m68k": ("m68k-linux-gnu", [], P(32, be=True, traps=True)),
    "mips": ("mips-linux-gnu", [], P(32, be=True, traps=True)),
    "mipsel": ("mipsel-linux-gnu", [], P(32, traps=True)),
    "mips64": ("mips64-linux-gnuabi64", [], P(64, be=True, traps=True)),
    "mips64el": ("mips64el-linux-gnuabi64", [], P(64, traps=True)),
    "sparc": ("sparc-linux-gnu", [], P(32, be=True, traps=True)),
    "sparc64": ("sparcv9-linux-gnu", [], P(64, be=True, traps=True)),
    "wasm32": ("wasm32-unknown-unknown", [], P(32, elf=False, known=False)),
    "e2k": ("x86_64-linux-gnu", vt.KINDS["e2k"][1:], P(64, e2k=True)),
}
NAMES = {"t1ha1_le": "1le", "t1ha1_be": "1be", "t1ha2_atonce": "2a64", "t1ha0_32le": "0le", "t1ha0_32be": "0be"}


HEADERS = ("glibc", "machine", "isa", "sys", "param")       # whose way of telling the byte order


def front(c, name, how, args, info="compiler", lang="c"):
    """runs the front end for a platform; returns its result"""
    target, flags, p = PLATFORMS[name]
    res = vt.run(["clang", "-print-resource-dir"]).stdout.decode().strip()
    g = lambda *x: ["-isystem", os.path.join(vt.DRV, "guest", *x)]
    fl = list(flags)
    if info != "compiler": fl += [x for x in vt.NOORDER if x not in fl]
    if info == "alone": fl += ["-D__has_include(x)=0"]
    cmd = ["clang" if lang == "c" else "clang++", "--target=" + target] + fl + \
          ["-std=gnu11" if lang == "c" else "-std=" + lang, "-w", "-ffreestanding", "-nostdinc"] + \
          (["-nostdinc++", "-isystem", os.path.join(vt.DRV, "guest", "include", "c++")] if lang != "c" else []) + (g("msvc") if "msvc" in target else g("e2k") if name == "e2k" else []) + \
          g("include") + (g("order", info) if info in HEADERS else g("sysinc")) + ["-isystem", os.path.join(res, "include"), "-I", vt.REPO] + how + args
    return cmd, vt.run(cmd)


def facts(c):
    jobs = []
    for n, (target, flags, p) in PLATFORMS.items():
        own = "msvc" in n and not n.startswith("clangcl")      # says nothing about the byte order
        for dis in ((), (1,), (1, 2), (2,)):
            for info in (["alone"] if own else ["compiler", "alone"] + list(HEADERS)):
                if dis and info != ("alone" if own else "compiler"): continue
                # a C library that announces itself brings its header with it
                how = [f"-DT1HA{k}_DISABLED" for k in dis]
                jobs.append((n, p, dis, info, how))

    def one(j):
        n, p, dis, info, how = j
        src = os.path.join(vt.DRV, "guest", "facts.c")
        f, why = {}, ""
        cmd, r = front(c, n, how, ["-E", "-P", src], info)
        if r.returncode:
            why = r.stderr.decode(errors="replace")
            return j, None, why
        for m in re.finditer(r"FACT (\w+) (.*?) END", r.stdout.decode(errors="replace"), re.S):
            f[m.group(1)] = m.group(2).split()
        cmd, r = front(c, n, how + ["-DT1HA0_AESNI_AVAILABLE=0", "-DT1HA0_RUNTIME_SELECT=0", "-DT1HA0_USE_DEFINE=1"], ["-E", "-P", src], info)
        m = re.search(r"FACT zero (.*?) END", r.stdout.decode(errors="replace"), re.S)
        f["t1ha0"] = m.group(1).split() if m else []
        return j, f, why
    recs = []
    for (n, p, dis, info, how), f, why in c.work.pool.map(one, jobs):
        num = lambda k: int(f[k][0].strip("()uUlL")) if f.get(k) and re.fullmatch(r"\(?\d+[uUlL]*\)?", f[k][0]) else -1
        if f is None:
            if "file not found" in why:
                c.notes.append(f"facts of {n}: {why[:200]}")
                continue
            rec = {"order": "refused" if "__BYTE_ORDER__ should be defined" in why else "failed", "unaligned": 0, "aes": 0, "rt": 0, "ifunc": 0,
                   "t1ha0": "none"}
        else:
            o = f.get("order", [])
            rec = {"order": "little" if len(o) == 3 and o[0] == o[1] else "big" if len(o) == 3 and o[0] == o[2] else "none",
                   "unaligned": num("unaligned"), "aes": num("aes"), "rt": num("rt"), "ifunc": num("ifunc"),
                   "t1ha0": NAMES.get(f["t1ha0"][0], f["t1ha0"][0]) if f["t1ha0"] else "none"}
        recs.append({"k": "fact", "p": p, "q": {"dis": list(dis), "info": {"compiler": "compiler", "alone": "machine"}.get(info, "header")}, "f": rec, "what": f"{n} ({info})", "why": why[:600]})
    return recs


def compiles(c, thorough):
    """the sources, and users of the header, through the front end for every platform"""
    jobs = []
    for n, (target, flags, p) in PLATFORMS.items():
        for exp in ("", "-Dt1ha_EXPORTS"):
            for s in vt.lib_sources():
                if n == "e2k" and "aes_avx2" in s: continue
                jobs.append((n, os.path.basename(s), [exp] if exp else [], ["-S", "-emit-llvm", "-o", "-"] + (vt.aes_flags(s) if p["x86"] or n == "e2k" else []) + [s], "c"))
        for lang in ("c", "c++11", "c++98"):
            for imp in ("", "-Dt1ha_IMPORTS"):
                for extra in ([], ["-DT1HA0_RUNTIME_SELECT=0"], ["-DT1HA0_RUNTIME_SELECT=1", "-DT1HA_USE_INDIRECT_FUNCTIONS=0"]):
                    if n == "e2k" and extra: continue
                    jobs.append((n, f"user in {lang}", ([imp] if imp else []) + extra,
                                 ["-S", "-emit-llvm", "-o", "-", "-x", lang[:3] if lang != "c" else "c", os.path.join(vt.DRV, "guest", "client.c")], lang))
    recs = []
    for j, (cmd, r) in zip(jobs, c.work.pool.map(lambda j: front(c, j[0], j[2], j[3], "compiler", j[4]), jobs)):
        err = r.stderr.decode(errors="replace")
        if r.returncode and lacking(err):
            # what the stand-ins for this platform's headers lack is no fault of the library, if it does compile here
            if host_takes(c, j):
                c.notes.append(f"{j[0]} {j[1]} {j[2]}: {err[:300]}")
                continue
        recs.append({"k": "code", "ok": r.returncode == 0, "what": f"{j[0]}: {j[1]} {' '.join(j[2])}", "why": err[:900]})
    return recs


def lacking(err):
    """every error is of something missing"""
    es = re.findall(r"(?m)^.*(?:error:|undefined reference).*$", err)
    return es and all(re.search(r"file not found|undefined reference|undeclared|implicit declaration|clang: error: linker", e) for e in es)


def host_takes(c, j):
    args = [x for x in j[3]]
    r = vt.run(["clang" if j[4] == "c" else "clang++", "-w", "-I", vt.REPO] + j[2] + args)
    return r.returncode == 0


def judge(c, recs, pairs, again=False):
    path = c.work.path(f"tool-{again}.ndjson")
    with open(path, "w") as f:
        for i, r in enumerate(recs):
            f.write(json.dumps({"id": str(i), **{k: v for k, v in r.items() if k not in ("what", "why")}}) + "\n")
    t = c.work.tlc("ObsTool", env={"OBS": path, "PAIRS": str(int(pairs)), "AGAIN": str(int(again))}, workers=1).require("what became of the library")
    bad = [recs[int(m.group(1))] for m in re.finditer(r'"REJECT",\s*"(\d+)"\s*>>', t.out)]
    if t.out.count('"REJECT"') != len(bad):
        raise vt.CheckError("could not parse the rejections:\n" + t.out[-1500:])
    return t, bad


def selfs(c, bins):
    """what all self-checks together say, by build"""
    plan = c.work.path(f"self-{len(os.listdir(c.work.dir))}.txt")
    with open(plan, "w") as f:
        f.write(vt.Case("self", "self", ("z", 0, 0), 0).line() * 2)
    res = {}
    for name, b, f in [(n, b, c.work.pool.submit(vt.run_driver, b, plan, "few", False, 4, 800, None)) for n, b in bins.items()]:
        out, r = f.result()
        res[name] = 0 if out is not None and re.findall(r"(?m)^SELF (-?\d+)$", out) == ["0", "0"] else -1
    return res


def c19(c):
    campaign.published(c)
    t = c.work.tlc("Arith", cfg="ArithDeep.cfg" if c.thorough else "Arith.cfg").require("Arith")
    c.model("Arith", t, "every way of multiplying and adding with carry gives the exact double-word product, for all operands at %d bits" %
            (8 if c.thorough else 6))
    for bad in ("ArithLe", "ArithDrop"):
        o = c.work.tlc("Arith", cfg=bad + ".cfg")
        if "Invariant Exact is violated" not in o.out:
            raise vt.CheckError(f"the negative model {bad} is not rejected:\n" + o.out[-1500:])
    c.coverage["negative_models"] = "Arith with a carry found by <= instead of <, and with a carry dropped between the halves: rejected"

    # the library with every tool
    cfgs = rows(c.rng, c.thorough)
    bins, failed = {}, {}
    for n, b in c.work.build_many(cfgs).items():
        if isinstance(b, str): bins[n] = b
        else: failed[n] = b.text
    recs = []
    said = selfs(c, bins)
    for k in cfgs:
        why = failed.get(k.name, "")
        if why and lacking(why) and stand_in_lacks(c, k):
            c.notes.append(f"{k.name} not built: {why[:300]}")
            continue
        recs.append({"k": "row", "row": k.row, "built": k.name in bins, "self": said.get(k.name, -1), "what": k.name, "why": why[:900]})
    left_out = len(recs) != len(cfgs)
    recs += facts(c)
    recs += compiles(c, c.thorough)
    t, bad = judge(c, recs, c.thorough, left_out)
    c.model("ObsTool", t, "every build came about, its self-checks pass, every platform is understood, every source compiles")
    c.traces += len(recs)
    if bad:
        rerun = {n: bins[n] for n in {r["what"] for r in bad if r["k"] == "row"} if n in bins}
        said2 = selfs(c, rerun) if rerun else {}
        for r in bad[:40]:
            if r["k"] == "row" and r["built"] and said2.get(r["what"], -1) == 0:
                c.notes.append(f"{r['what']}: a failed self-check did not repeat")
                continue
            c.violate({"row": "the library does not build or fails its own checks with this toolchain",
                       "fact": "the headers take this platform for something it is not",
                       "code": "the sources do not compile for this platform"}[r["k"]], r)
    c.coverage["platforms"] = len(PLATFORMS)
    c.coverage["facts"] = sum(r["k"] == "fact" for r in recs)
    c.coverage["compiled"] = sum(r["k"] == "code" for r in recs)
    c.coverage["toolchains"] = sorted(bins)
    c.sample(next(r for r in recs if r["k"] == "fact"))

    # values
    if bins:
        fns = campaign.runnable(cases.ALL64)
        p = dict(dense=530, nsteer=500, nrand=500, npat=3) if c.thorough else dict(dense=170, nsteer=160, nrand=120, nseed=16)
        cs = cases.value_cases(c.rng, fns, longs=cases.long_lengths(c.rng, 8, 1 << (17 if c.thorough else 14)), **p)
        none = {n for n in bins if n.rsplit("-", 1)[0] in NOAES}
        plain = [k for k in cs if k.fn not in ("aes", "avx", "avx2")]
        e2k = {n for n in bins if n.startswith("e2k")}
        groups = [({n: b for n, b in bins.items() if n not in none | e2k}, cs), ({n: bins[n] for n in none}, plain),
                  ({n: bins[n] for n in e2k}, [k for k in cs if k.fn != "avx2"])]
        for i, (bs, cases_) in enumerate(groups):
            if bs:
                campaign.run_cases(c, bs, cases_, "a hash value with this toolchain is not the specified one", places="few", label=f"tools{i}")
        c.coverage["cases"] = len(cs)

    # dispatch on processors made to order
    chk_dispatch.cycle(c, DISPATCH if c.thorough else DISPATCH[:9], "calls", "t1ha0 built with this toolchain does not execute the implementation meant for the processor")
    chk_dispatch.cycle(c, DISPATCH if c.thorough else DISPATCH[:3], "selfs", "a self-check built with this toolchain fails, leaves out an implementation, or executes an unsupported one")
    c.assumptions += ["clang taking on the predefined macros, extensions and data model of another compiler stands for it; Elbrus's own "
                      "instructions are functions in drivers/guest/e2k",
                      "platforms without an emulator here are only preprocessed and compiled"]


def stand_in_lacks(c, k):
    """the same options build with the compilers that are really here: then the stand-ins lack something"""
    try:
        c.work.build_lib(Config("host-" + k.name, cc="clang", opt=k.opt, ndebug=k.ndebug, m32=k.m32,
                                defs=[d for d in k.defs if "RUNTIME" not in d]))
        return True
    except vt.BuildFailed:
        return False


DISPATCH = [
    Bld("msvc64", kind="msvc64", plain=True),
    Bld("mingw64", kind="mingw64", plain=True),
    Bld("msvc32", kind="msvc32", plain=True, m32=True),
    Bld("clangcl64", kind="clangcl64", plain=True),
    Bld("bare64", kind="bare64", aes=False, rt=True),
    Bld("bare32", kind="bare32", aes=False, rt=True, m32=True),
    Bld("gcc42-64", kind="gcc42-64", aes=False, rt=True, ifunc=True),
    Bld("msvc64-static-no12", kind="msvc64", rt=False, usedef=True, dis=(1, 2)),
    Bld("gcc42-32", kind="gcc42-32", aes=False, rt=True, m32=True),
    Bld("msvc64-no1", kind="msvc64", dis=(1,), opt="-O3"),
    Bld("msvc64-static", kind="msvc64", rt=False),
    Bld("msvc32-static", kind="msvc32", rt=False, m32=True),
    Bld("msvc64-O0", kind="msvc64", opt="-O0", ndebug=False),
    Bld("clangcl64-no12", kind="clangcl64", dis=(1, 2)),
    Bld("bare64-static", kind="bare64", aes=False, rt=False),
    Bld("bare64-no1", kind="bare64", aes=False, rt=True, dis=(1,)),
    Bld("gcc42-64-funcptr", kind="gcc42-64", aes=False, rt=True, ifunc=False),
]
