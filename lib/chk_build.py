"""C15: subsets of families."""
import json, os, re
import vt, campaign, mock, cases, configs
from vt import Config
from mock import Bld

LENS = tuple(range(35)) + (40, 47, 63, 64, 65, 100, 127, 128, 129, 159, 200, 240)   # as in spec/BuildVals.tla
SEED, SEED2 = "UINT64_C(0x123456789abcdef1)", "UINT64_C(0xdef19abc56781234)"
NEED = {"t1ha0_ia32aes_noavx": "aes", "t1ha0_ia32aes_avx": "avx", "t1ha0_ia32aes_avx2": "avx2"}


def runnable(name, have):
    for k, v in NEED.items():
        if name.endswith(k): return v in have
    return True


def api_program(names, have):
    """a program, C and C++ alike, that uses every name it is given"""
    L = ["#define __STDC_FORMAT_MACROS 1", "#define __STDC_CONSTANT_MACROS 1", '#include "t1ha.h"', "#include <stdio.h>",
         "#include <stdint.h>", "#include <inttypes.h>", "#include <string.h>", "#ifndef UINT64_C",
         "#define UINT64_C(x) x##ULL", "#endif",
         "static unsigned char room[272]; static unsigned char *buf = room;",
         "static void fill(size_t n) { for (size_t i = 0; i < n; ++i) { unsigned x = (unsigned)((i + 7 * 131) % 32749);"
         " buf[i] = (unsigned char)((x * x) % 65521 + x * 167 + (x / 256) * 31); } }",
         "static const size_t lens[] = {%s};" % ", ".join(map(str, LENS)),
         "static void v(const char *k, size_t n, uint64_t r) { printf(\"V %s %u %08x%08x -\\n\", k, (unsigned)n, (unsigned)(r >> 32), (unsigned)r); fflush(stdout); }",
         "static void w(const char *k, size_t n, uint64_t r, uint64_t e) { printf(\"V %s %u %08x%08x %08x%08x\\n\", k, (unsigned)n, (unsigned)(r >> 32), (unsigned)r, (unsigned)(e >> 32), (unsigned)e); fflush(stdout); }",
         "static void s(const char *k, int rc) { printf(\"S %s %d\\n\", k, rc); fflush(stdout); }",
         "int main(void) {", " for (unsigned q = 0; q < sizeof lens / sizeof *lens; ++q) { size_t n = lens[q]; buf = room + q * 5 % 16; fill(n);",
         "  uint64_t e = 0; (void)e;"]
    has = set(names)
    for k in names:
        if k.startswith("t1ha_selfcheck") or k in ("t1ha2_init", "t1ha2_update") or not runnable(k, have): continue
        if k == "t1ha2_atonce128":
            L.append(f'  e = 0x1111; {{ uint64_t r = {k}(&e, buf, n, {SEED}); w("{k}", n, r, e); }}')
        elif k == "t1ha2_final":
            L.append(f'  {{ t1ha_context_t c; t1ha2_init(&c, {SEED}, {SEED2}); t1ha2_update(&c, buf, n / 2);'
                     f' t1ha2_update(&c, buf + n / 2, n - n / 2); v("{k}", n, t1ha2_final(&c, NULL)); }}')
            L.append(f'  {{ t1ha_context_t c; t1ha2_init(&c, {SEED}, {SEED2}); t1ha2_update(&c, buf, n / 3);'
                     f' t1ha2_update(&c, buf + n / 3, n - n / 3); e = 5; uint64_t r = t1ha2_final(&c, &e); w("{k}128", n, r, e); }}')
        elif k == "t1ha0_resolve":
            L.append(f'  v("{k}", n, t1ha0_resolve()(buf, n, {SEED}));')
        else:
            L.append(f'  v("{k}", n, {k}(buf, n, {SEED}));')
    L.append(" }")
    for k in names:
        if k.startswith("t1ha_selfcheck") and runnable(k, have):
            L.append(f' s("{k}", {k}());')
    L.append(' puts("END"); return 0; }')
    return "\n".join(L) + "\n"


def declared(work, c, names, lang):
    """which of the names the header declares in this configuration"""
    p = work.path(f"decl-{c.name}.{lang}")
    with open(p, "w") as f:
        f.write('#include "t1ha.h"\n')
        for i, n in enumerate(names):
            f.write(f"void use_{i}(void) {{ (void)&{n}; }}\n")
    cc = c.cc if lang == "c" else {"gcc": "g++", "clang": "clang++"}[c.cc]
    stds = ["gnu89", "c99", "c11", "c17", "c2x"] if lang == "c" else ["c++98", "c++11", "c++14", "c++17", "c++20", "c++2b"]
    fl = [x for x in c.flags() if not x.startswith("-std=")] + ["-std=" + stds[sum(map(ord, c.name)) % len(stds)]]
    lim = ["-fmax-errors=0"] if c.cc == "gcc" else ["-ferror-limit=0"]
    r = vt.run([cc] + fl + lim + ["-fsyntax-only", "-I", vt.REPO, p], env=dict(os.environ, LC_ALL="C"))
    missing = set()
    for m in re.finditer(r"decl-[^:]*:(\d+):\d+: error", r.stderr.decode(errors="replace")):
        missing.add(int(m.group(1)) - 2)
    return [n for i, n in enumerate(names) if i not in missing]


def defined(objs):
    r = vt.run(["nm", "-g", "--defined-only"] + objs)
    return sorted({l.split()[-1] for l in r.stdout.decode().splitlines() if len(l.split()) == 3})


def one(work, rec, cc, opt, lang, cpus, have, tag):
    """one configuration in one language -> records"""
    b = rec["build"]
    bld = Bld(tag, dis=b["dis"], aes=b["aes"], rt=b["rt"], ifunc=b["ifunc"], m32=b["word"] == 32, usedef=b["def"], cc=cc, opt=opt)
    c = bld.cfg
    base = {"build": bld.spec, "host": sorted(have & {"aes", "avx", "avx2"}), "name": tag, "lang": lang}
    bad = dict(base, built=False, declared=[], defined=[], vals=[], selfs=[], why="", cpu=cpus[0]["cpu"])
    src = work.path(f"api-{tag}.{'c' if lang == 'c' else 'cc'}")
    with open(src, "w") as f:
        f.write(api_program(rec["names"], have))
    try:
        binary, mocked = mock.build(work, bld, driver=src, lang=lang)
    except vt.BuildFailed as e:
        return [dict(bad, why=f"{e.what}: {e.text[:600]}")]
    objs = [os.path.join(os.path.dirname(binary), x) for x in os.listdir(os.path.dirname(binary)) if x.endswith(".o")]
    base["declared"] = declared(work, c, rec["names"] + rec["absent"], lang)
    base["defined"] = [x for x in defined(objs) if x.startswith("t1ha")]
    out = []
    for i, cpu in enumerate(cpus):
        if not mocked: break
        text, rc = mock.execute(work, binary, cpu, str(i))
        vals, selfs, end = [], [], False
        for l in text.splitlines():
            t = l.split()
            if t[0] == "V" and len(t) == 5:
                vals.append({"k": t[1], "n": int(t[2]), "r": vt.limbs(int(t[3], 16)), "e": [] if t[4] == "-" else vt.limbs(int(t[4], 16))})
            elif t[0] == "S": selfs.append({"k": t[1], "rc": int(t[2])})
            elif t[0] == "END": end = True
        if not end: selfs.append({"k": "t1ha_selfcheck__all_enabled", "rc": -99})
        out.append(dict(base, cpu=cpu["cpu"], built=True, vals=vals, selfs=selfs, why="" if end else f"ended with {rc}"))
    return out


def c15(c):
    p = c.work.path("builds.ndjson")
    t = c.work.tlc("BuildGen", env={"OUT": p}).require("BuildGen")
    builds = [json.loads(l) for l in open(p)]
    have = campaign.cpu_flags()
    allcpus, _ = mock.cpus(c.work)
    pick = lambda **kw: [x for x in allcpus if all(x["cpu"][k] == v for k, v in kw.items())][0]
    cpus = [pick(max=7, aes=False, osxsave=True, avx=True, avx2=True, noise="ones"),
            pick(max=13, aes=True, osxsave=True, avx=True, avx2=True, noise="zero")]
    cpus = [x for x in cpus if mock.supported(x) <= have]
    jobs = []
    opts = ["-O0", "-O1", "-O2", "-Os", "-O3"]
    for i, r in enumerate(builds):
        lang = "c" if (i + c.seed) % 2 else "c++"
        ccs = ["gcc", "clang"] if c.thorough else ["clang" if c.rng.randrange(4) == 0 else "gcc"]
        langs = ["c", "c++"] if c.thorough else [lang]
        for cc in ccs:
            for l in langs:
                jobs.append((r, cc, c.rng.choice(opts), l, f"b{len(jobs)}"))
    # the other language for the header-only side of every build, and both for a few
    if not c.thorough:
        for r in c.rng.sample(builds, 12):
            for l in ("c", "c++"):
                jobs.append((r, "gcc", "-O2", l, f"b{len(jobs)}"))

    def execute(jobs):
        recs = []
        for rs in c.work.pool2.map(lambda j: one(c.work, j[0], j[1], j[2], j[3], cpus, have, j[4]), jobs):
            recs += rs
        for i, r in enumerate(recs): r["id"] = str(i)
        return recs

    def verdict(recs):
        path = c.work.path("build.ndjson")
        with open(path, "w") as f:
            for r in recs:
                f.write(json.dumps({k: v for k, v in r.items() if k not in ("name", "lang", "why")}) + "\n")
        t = c.work.tlc("ObsBuild", env={"OBS": path}).require("configurations")
        return t, [(recs[int(m.group(1))], m.group(2)) for m in re.finditer(r'"REJECT",\s*"(\d+)",\s*"(.*?)"\s*>>', t.out, re.S)]

    recs = execute(jobs)
    t, bad = verdict(recs)
    if bad:
        names = {r["name"] for r, _ in bad}
        recs2 = execute([j for j in jobs if j[4] in names])
        t, bad = verdict(recs2)
        for r, why in bad[:100]:
            c.violate("a configuration does not offer what it should", {
                "build": r["build"], "lang": r["lang"], "cpu": r["cpu"], "faults": why, "why": r["why"],
                "selfs": [s for s in r["selfs"] if s["rc"]]})
    c.model("ObsBuild", t, "every configuration offers exactly what the specification says, with the right values")
    c.traces += len(recs)
    c.coverage["configurations"] = len(jobs)
    c.coverage["runs"] = len(recs)
    c.sample({k: recs[0][k] for k in ("build", "lang", "declared", "vals")})
    c.assumptions += ["family macros are given to library and user alike, as documented"]
