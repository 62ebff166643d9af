"""C07: dispatch of t1ha0; C14: what the self-checks execute."""
import json, re
import vt, campaign, mock
from mock import Bld

BUILDS = [
    Bld("plain", plain=True),
    Bld("plain32", plain=True, m32=True),
    Bld("funcptr", ifunc=False),
    Bld("ifunc32", m32=True, ifunc=True),
    Bld("clang", cc="clang", opt="-O2"),
    Bld("clang-funcptr-O0", cc="clang", opt="-O0", ifunc=False),
    Bld("clang32", cc="clang", opt="-O2", m32=True),
    Bld("O0-assert", opt="-O0", ndebug=False),
    Bld("no1", dis=(1,)),
    Bld("no2", dis=(2,), ifunc=False),
    Bld("no12", dis=(1, 2)),
    Bld("no12-32", dis=(1, 2), m32=True),
    Bld("no1-32", dis=(1,), m32=True),
]
STATIC = [
    Bld("static", rt=False),
    Bld("static32", rt=False, m32=True),
    Bld("static-no1", rt=False, dis=(1,)),
    Bld("static-no12-def", rt=False, dis=(1, 2), usedef=True),
    Bld("static-def", rt=False, usedef=True),
    Bld("only1", dis=(0, 2)),
    Bld("only2", dis=(0, 1)),
    Bld("only12-32", dis=(0,), m32=True),
]
PORTABLE = [
    Bld("noaes-rt", aes=False, rt=True),
    Bld("noaes-rt-funcptr-no1", aes=False, rt=True, ifunc=False, dis=(1,)),
    Bld("noaes", aes=False),
    Bld("noaes32", aes=False, m32=True),
    Bld("noaes-rt-32", aes=False, rt=True, m32=True),
    Bld("noaes-no12-rt", aes=False, rt=True, dis=(1, 2)),
]


def observe(c, builds, which, cpus, few):
    """runs and returns records with only the part `which` filled in"""
    have = campaign.cpu_flags()
    cpus = [x for x in cpus if mock.supported(x) <= have]
    ghost = [x for x in cpus if not mock.supported(x)]
    made = list(zip(builds, c.work.pool2.map(lambda b: attempt(c, b), builds)))
    jobs = []
    for b, r in made:
        if r is None: continue
        binary, mocked = r
        sel = cpus if b.spec["aes"] else few
        if not mocked:
            c.notes.append(f"{b.name}: probes the processor in a way that cannot be replaced; only the real processor is run")
            continue
        for i, cpu in enumerate(sel):
            jobs.append((b, binary, cpu, i))
    hung = []

    def execute(*a):
        if len(hung) > 12: return None      # enough seen
        r = mock.execute(c.work, *a)
        if r[1] == "timeout": hung.append(a)
        return r
    futs = [(b, cpu, c.work.pool.submit(execute, binary, cpu, str(i))) for b, binary, cpu, i in jobs]
    recs = []
    for b, cpu, f in futs:
        r = f.result()
        if r is None: continue
        text, rc = r
        calls, selfs, resolve, end = mock.parse(text, rc)
        if not end:
            calls.append({"k": "died", "n": 0, "r": [], "in": []})
            selfs.append({"k": "t1ha_selfcheck__all_enabled", "rc": -99, "in": []})
        if which == "calls": selfs = []
        else: calls, resolve = [], "none"
        recs.append({"id": str(len(recs)), "build": b.spec, "cpu": cpu["cpu"], "resolve": resolve, "calls": calls, "selfs": selfs,
                     "name": b.name})
    return recs


def attempt(c, b):
    try:
        return mock.build(c.work, b)
    except vt.BuildFailed as e:
        if b.name == "plain": raise
        c.notes.append(f"{b.name} not built: {e.text[:200]}")
        return None


def verdict(c, recs, which):
    path = c.work.path(f"disp-{which}.ndjson")
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps({k: r[k] for k in ("id", "build", "cpu", "resolve", "calls", "selfs")}) + "\n")
    t = c.work.tlc("ObsDispatch", env={"OBS": path}).require("observed executions")
    bad = []
    for m in re.finditer(r'"REJECT",\s*"(\d+)",\s*"(\w+)",\s*(TRUE|FALSE),\s*"([^"]*)",\s*"(.*?)"\s*>>', t.out, re.S):
        bad.append((recs[int(m.group(1))], m.groups()[1:]))
    if t.out.count('"REJECT"') != len(bad):
        raise vt.CheckError("could not parse the rejections:\n" + t.out[-1500:])
    return t, bad


def cycle(c, builds, which, what):
    t = c.work.tlc("Dispatch").require("Dispatch")
    c.model("Dispatch", t, "probe, resolution by loader/constructor/proxy/compile time, concurrent and early calls: every "
                           "processor x build")
    old = c.work.tlc("Dispatch", cfg="DispatchOld.cfg")
    if "Invariant CallsAreRight is violated" not in old.out:
        raise vt.CheckError("the model no longer shows the defect repaired in b48acef:\n" + old.out[-1500:])
    cpus, t = mock.cpus(c.work)
    few = [x for x in cpus if x["cpu"]["max"] in (0, 13) and x["cpu"]["aes"] == x["cpu"]["avx2"] == x["cpu"]["osxsave"] == x["cpu"]["avx"]]
    if not c.thorough:
        cpus = [x for x in cpus if x["cpu"]["max"] in (0, 1, 6, 7) or x["cpu"]["noise"] == "ones"]
    recs = observe(c, builds, which, cpus, few)
    if not recs:
        c.notes.append("no processor could be replaced")
        return
    t, bad = verdict(c, recs, which)
    if bad:   # once more, only those that failed
        names = {(r["name"], json.dumps(r["cpu"], sort_keys=True)) for r, _ in bad}
        again = [b for b in builds if b.name in {n for n, _ in names}]
        recs2 = [r for r in observe(c, again, which, cpus, few) if (r["name"], json.dumps(r["cpu"], sort_keys=True)) in names]
        for i, r in enumerate(recs2): r["id"] = str(i)
        _, bad = verdict(c, recs2, which)
        for r, (want, res, calls, selfs) in bad[:100]:
            c.violate(what, {"build": r["name"], "cpu": r["cpu"], "specified": want, "resolve": r["resolve"],
                             "calls": [k for k in r["calls"]][:4], "selfs": r["selfs"][:4], "bad_calls": calls, "bad_selfs": selfs})
    c.model("ObsDispatch", t, "every observed execution is one the specification allows")
    c.traces += len(recs)
    c.coverage["executions"] = len(recs)
    c.coverage["builds"] = sorted({r["name"] for r in recs})
    c.coverage["processors"] = len({json.dumps(r["cpu"], sort_keys=True) for r in recs})
    c.sample(recs[len(recs) // 2])
    c.sample(recs[-1])
    c.assumptions += ["the library learns about the processor from the CPUID (and XGETBV) instruction only",
                      "variants the test host cannot execute are not exercised"]


def c07(c):
    cycle(c, BUILDS + [b for b in STATIC if 0 not in b.spec["dis"]] + PORTABLE, "calls", "t1ha0 does not execute the implementation meant for the processor")


def c14(c):
    cycle(c, BUILDS + STATIC + PORTABLE, "selfs", "a self-check fails, leaves out an implementation, or executes an unsupported one")
