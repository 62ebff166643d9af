"""Running cases through builds of the library and having TLC judge what was
observed; shared by the checks."""
import re
import vt, cases, configs


def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":")[1].split())
    except OSError:
        pass
    return set()


def runnable(fns):
    """drops the variants this processor cannot execute"""
    have = cpu_flags()
    need = {"aes": {"aes"}, "avx": {"aes", "avx"}, "avx2": {"aes", "avx", "avx2"}}
    return [f for f in fns if need.get(f, set()) <= have]


def published(c):
    t = c.work.tlc("Published").require("the published values")
    c.model("Published", t, "the specification yields the 81 published values of each of the 11 functions")


def build(c, cfgs, required=("native",), **kw):
    """Builds configurations; one that does not build is skipped with a note,
    unless required."""
    bins = c.work.build_many(cfgs, **kw)
    for n, b in list(bins.items()):
        if not isinstance(b, str):
            if n in required:
                raise b
            c.notes.append(f"configuration {n} not built: {b.text[:300]}")
            del bins[n]
    return bins


def explain(c, key, exp, byid, where):
    cs = byid.get(key[0])
    d = {"observed": key[1], "extra": key[2], "where": [f"{a}:{b}" for a, b in where[:6]]}
    if cs:
        d.update(cs.describe())
    if exp:
        d["specified"] = f"{exp[0]:016x}"
        if exp[1] is not None:
            d["specified_extra"] = f"{exp[1]:016x}"
    return d


def confirm(c, bins, cs, obs, rejected, places, exact, pages, label, env=None):
    """Reruns the rejected cases where they were seen; keeps those rejected again."""
    byid = {k.id: k for k in cs}
    again_cases = []
    seen = set()
    for key, _ in rejected[:400]:
        if key[0] in byid and key[0] not in seen:
            seen.add(key[0])
            again_cases.append(byid[key[0]])
    used = {n for key, _ in rejected[:400] for n, _ in obs[key]}
    if not again_cases:
        return []
    obs2 = vt.collect(c.work, {n: b for n, b in bins.items() if n in used}, again_cases, places, exact, pages,
                      label + "-again", env)
    rej2, _, _ = vt.judge(c.work, again_cases, obs2)
    return [(k, e, obs2[k]) for k, e in rej2]


def run_cases(c, bins, cs, what, places="full", exact=False, pages=40, label="plan", env=None, only_faults=False,
              accept=None):
    """The whole cycle. Adds violations to c. Returns the observations."""
    obs = vt.collect(c.work, bins, cs, places, exact, pages, label, env)
    rejected, t, n = vt.judge(c.work, cs, obs)
    if t is not None:
        c.model("ObsHash/" + label, t, "every observed call is a call the specification allows")
    c.traces += n
    byid = {k.id: k for k in cs}
    if accept:
        rejected = [(k, e) for k, e in rejected if not accept(k, byid.get(k[0]))]
    if rejected:
        again = confirm(c, bins, cs, obs, rejected, places, exact, pages, label, env)
        if accept:
            again = [(k, e, w) for k, e, w in again if not accept(k, byid.get(k[0]))]
        if not again:      # not reproducible case by case: repeat the run as it was
            obs2 = vt.collect(c.work, bins, cs, places, exact, pages, label + "-rep", env)
            rej2, _, _ = vt.judge(c.work, cs, obs2)
            again = [(k, e, obs2[k]) for k, e in rej2 if not (accept and accept(k, byid.get(k[0])))]
        for k, e, w in again:
            c.violate(what, explain(c, k, e, byid, w))
        if not again:
            c.notes.append(f"{len(rejected)} rejections did not repeat")
    for k in list(obs)[:: max(1, len(obs) // 3)][:3]:
        if k[0] in byid:
            c.sample(dict(byid[k[0]].describe(), result=k[1], extra=k[2], configurations=len({a for a, _ in obs[k]})))
    return obs


def count(c, key, v):
    c.coverage[key] = c.coverage.get(key, 0) + v
