"""Common machinery of the t1ha checks: building /repo's sources in many
configurations, running the drivers, letting TLC judge what they observed,
evidence and verdicts."""
import concurrent.futures as cf
import glob, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
USER = os.path.join(DRV, "guest", "user.c")
TLA = "/opt/veriftools/tla"
NCPU = os.cpu_count() or 4
M64 = (1 << 64) - 1


class CheckError(Exception):
    """The check itself could not be carried out (no verdict)."""


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


# --------------------------------------------------------------------------
# building

BASE = ["-std=gnu11", "-D_DEFAULT_SOURCE", "-fno-stack-protector", "-fPIC", "-w"]


WIN64 = ("mingw64", "msvc64", "clangcl64", "msvc64-2013")
_MS = ["-fms-extensions", "-fms-compatibility", "-fms-compatibility-version=19.29", "-fno-strict-aliasing"]
NOORDER = ["-U__BYTE_ORDER__", "-U__ORDER_LITTLE_ENDIAN__", "-U__ORDER_BIG_ENDIAN__"]
_MSVC = _MS + NOORDER + ["-U__clang__", "-D__has_builtin(x)=0", "-D__has_attribute(x)=0", "-D__has_include(x)=0"]
_BARE = ["-U__clang__", "-U__GNUC__", "-U__GNUC_MINOR__", "-D__has_builtin(x)=0", "-D__has_attribute(x)=0", "-U__SIZEOF_INT128__"] + NOORDER
_OLD = ["-U__clang__", "-U__GNUC__", "-U__GNUC_MINOR__", "-D__has_builtin(x)=0", "-D__has_attribute(x)=0", "-D__GNUC__=4"]
KINDS = {
    # GCC, Microsoft's compiler and clang-cl on 64-bit Windows (long has 32 bits there), Microsoft's on 32-bit Windows
    "mingw64": ["--target=x86_64-w64-windows-gnu-elf", "-DT1HA_USE_INDIRECT_FUNCTIONS=0"],
    "msvc64": ["--target=x86_64-pc-windows-msvc-elf"] + _MSVC,
    "clangcl64": ["--target=x86_64-pc-windows-msvc-elf", "-DT1HA_USE_INDIRECT_FUNCTIONS=0"] + _MS,
    "msvc32": ["--target=i686-pc-windows-msvc-elf"] + _MSVC,
    # Microsoft's oldest supported
    "msvc64-2013": ["--target=x86_64-pc-windows-msvc-elf"] + [x.replace("19.29", "18.00.40629") for x in _MSVC],
    "msvc32-2013": ["--target=i686-pc-windows-msvc-elf"] + [x.replace("19.29", "18.00.40629") for x in _MSVC],
    # a compiler without any of these extensions; GCC 4.2
    "bare64": ["--target=x86_64-linux-gnu"] + _BARE,
    "bare32": ["--target=i686-linux-gnu", "-msse2"] + _BARE,
    "gcc42-64": ["--target=x86_64-linux-gnu", "-D__GNUC_MINOR__=2"] + _OLD,
    "gcc42-32": ["--target=i686-linux-gnu", "-msse2", "-D__GNUC_MINOR__=2"] + _OLD,
    # MCST's compiler for Elbrus (the instructions it has stand in as functions, see drivers/guest/e2k)
    "e2k": ["--target=x86_64-linux-gnu", "-D__e2k__=1", "-D__iset__=5", "-D__LCC__=125", "-D__LCC_MINOR__=1"] +
           ["-U" + x for x in ("__x86_64__", "__x86_64", "__amd64__", "__amd64")],
    "e2k-iset2": ["--target=x86_64-linux-gnu", "-D__e2k__=1", "-D__iset__=2", "-D__LCC__=121", "-D__LCC_MINOR__=1"] +
                 ["-U" + x for x in ("__x86_64__", "__x86_64", "__amd64__", "__amd64")],
    "e2k-124": ["--target=x86_64-linux-gnu", "-D__e2k__=1", "-D__iset__=4", "-D__LCC__=124", "-D__LCC_MINOR__=1"] +
               ["-U" + x for x in ("__x86_64__", "__x86_64", "__amd64__", "__amd64")],
}


class Config:
    """One way of building the library. cflags are given to library and driver
    alike; libonly only to the library. kind: the toolchain the library is given to
    believe in, see KINDS."""

    def __init__(self, name, cc="gcc", opt="-O3", ndebug=True, m32=False, defs=(), extra=(), aes=True, libonly=(), kind="host"):
        self.kind = kind
        self.win = kind in WIN64
        self.name, self.cc, self.opt, self.ndebug, self.m32 = name, cc, opt, ndebug, m32
        self.defs, self.extra, self.aes, self.libonly = list(defs), list(extra), aes, list(libonly)

    def flags(self):
        f = list(BASE) + [self.opt] + (["-DNDEBUG"] if self.ndebug else [])
        if self.m32:
            f += ["-m32", "-msse2"]
        return f + ["-D" + d for d in self.defs] + self.extra

    def key(self):
        return (self.cc, self.opt, self.ndebug, self.m32, tuple(self.defs), tuple(self.extra), tuple(self.libonly), self.kind)


def aes_flags(src):
    b = os.path.basename(src)
    if "noavx" in b:
        return ["-mno-avx2", "-mno-avx", "-maes"]
    if "avx2" in b:
        return ["-mavx2", "-mavx", "-maes"]
    if "_avx" in b:
        return ["-mno-avx2", "-mavx", "-maes"]
    return []


def lib_sources():
    return sorted(s for s in glob.glob(os.path.join(REPO, "src", "*.c")))


class BuildFailed(Exception):
    def __init__(self, config, what, text):
        super().__init__(f"{config}: {what}: {text[:2000]}")
        self.config, self.what, self.text = config, what, text


class Work:
    """Scratch directory of one run of one check, removed at the end."""

    def __init__(self, tag):
        os.makedirs(os.path.join(VERIF, ".work"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=tag + "-", dir=os.path.join(VERIF, ".work"))
        self.built = {}
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.pool2 = cf.ThreadPoolExecutor(4)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        self.pool2.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- compile ----------------------------------------------------------
    def _cc(self, cfgname, cmd):
        r = run(cmd)
        if r.returncode:
            raise BuildFailed(cfgname, " ".join(cmd[-3:]), r.stderr.decode(errors="replace"))

    def build_lib(self, c, wrap=()):
        """Compiles all library sources; returns the list of objects."""
        if c.name in self.built and self.built[c.name][0] == c.key():
            return self.built[c.name][1]
        d = self.path("obj-" + c.name)
        os.makedirs(d, exist_ok=True)
        jobs, objs = [], []
        for s in lib_sources() + ([USER] if c.kind != "host" else []):
            o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
            objs.append(o)
            fl = c.flags() + ["-fvisibility=hidden", "-Dt1ha_EXPORTS", "-ffunction-sections"] + c.libonly + aes_flags(s)
            jobs.append([c.cc] + fl + ["-I", REPO, "-c", s, "-o", o] if c.kind == "host" else self._foreign(c, s, o))
        futs = [self.pool.submit(self._cc, c.name, j) for j in jobs]
        err = None
        for f in futs:
            try:
                f.result()
            except BuildFailed as e:
                err = err or e
        if err:
            raise err
        self.built[c.name] = (c.key(), objs)
        return objs

    def foreign(self, c, s):
        """the command line of another toolchain, up to what becomes of the result"""
        res = run(["clang", "-print-resource-dir"]).stdout.decode().strip()
        inc = lambda *x: ["-isystem", os.path.join(DRV, "guest", *x)]
        return ["clang"] + KINDS[c.kind] + ["-std=gnu11", "-w", "-ffreestanding", "-fno-stack-protector", "-nostdinc"] + \
               (["-mno-stack-arg-probe"] if "-windows-" in KINDS[c.kind][0] else []) + (["-mno-red-zone"] if c.win else []) + \
               (inc("msvc") if "msvc" in c.kind else inc("e2k") if "e2k" in c.kind else []) + inc("include") + inc("sysinc") + \
               ["-isystem", os.path.join(res, "include"), c.opt] + (["-DNDEBUG"] if c.ndebug else []) + \
               ["-D" + d for d in c.defs] + c.libonly + aes_flags(s) + ["-I", REPO, s]

    def _foreign(self, c, s, o):
        """the library for another toolchain or Windows, in ELF objects"""
        cmd = self.foreign(c, s) + ["-fpie" if "-linux-" in KINDS[c.kind][0] else "-fno-pic", "-c", "-o", o]
        return self.renamed(cmd, o) if c.win else cmd

    def renamed(self, cmd, o):
        # 64-bit Windows has its own calling convention: drivers/winshim.c translates
        q = lambda l: " ".join("'" + x + "'" for x in l)
        return ["sh", "-c", q(cmd) + " && " + q(["objcopy", "--prefix-symbols=win_", "-R", ".ctors*", "-R", ".init_array*", o])]

    def link(self, c, objs, drivers, out, libs=(), extra=()):
        if c.win: drivers = list(drivers) + ["winshim.c"]
        if c.kind.startswith("msvc32"): extra = list(extra) + ["-no-pie"]
        cmd = [c.cc] + c.flags() + list(extra) + ["-I", REPO, "-I", DRV] + \
              [os.path.join(DRV, x) if not os.path.isabs(x) else x for x in drivers] + objs + ["-o", out] + list(libs)
        r = run(cmd)
        if r.returncode:
            raise BuildFailed(c.name, "link " + os.path.basename(out), r.stderr.decode(errors="replace"))
        return out

    def build(self, c, drivers=("hashdrv.c",), libs=(), extra=(), tag=""):
        return self.link(c, self.build_lib(c), drivers, self.path(f"drv-{c.name}{tag}"), libs, extra)

    def build_many(self, configs, **kw):
        """Builds several configurations concurrently; returns {name: path or BuildFailed}"""
        outer = cf.ThreadPoolExecutor(4)
        futs = {c.name: outer.submit(self.build, c, **kw) for c in configs}
        res = {}
        for n, f in futs.items():
            try:
                res[n] = f.result()
            except BuildFailed as e:
                res[n] = e
        outer.shutdown()
        return res

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=NCPU, timeout=800, args=(), heap="8g", cp=None, props=()):
        md = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        e = dict(os.environ)
        e.update(env or {})
        cpath = ":".join((cp or []) + [TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"])
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + md] + list(props) + \
              ["-cp", cpath, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", md]
        if cfg:
            cmd += ["-config", cfg]
        cmd += list(args) + [module]
        try:
            r = run(cmd, timeout=timeout, cwd=SPEC, env=e)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timed out on {module}")
        out = r.stdout.decode(errors="replace")
        shutil.rmtree(md, ignore_errors=True)
        return TlcResult(r.returncode, out + r.stderr.decode(errors="replace"))


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", out)
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        self.ok = rc == 0 and "No error has been found" in out

    def require(self, what):
        if not self.ok:
            raise CheckError(f"TLC did not accept {what}:\n" + self.out[-3000:])
        return self


# --------------------------------------------------------------------------
# words and messages

def limbs(v):
    return [(v >> (16 * i)) & 65535 for i in range(4)]


def unlimbs(l):
    return sum(x << (16 * i) for i, x in enumerate(l))


def msg_text(m):
    g = m[0]
    if g == "x":
        return "x:0:" + (m[2].hex() if len(m[2]) else "-")
    return f"{g}:{m[1]}:{m[2]}"


def msg_json(m):
    if m[0] == "x":
        return {"g": "x", "s": 0, "n": len(m[2]), "b": list(m[2])}
    return {"g": m[0], "s": m[1], "n": m[2], "b": []}


def gen_byte(g, s, i):
    if g == "z": return 0
    if g == "f": return 255
    if g == "c": return (i + s) & 255
    if g == "h": return 128 if i % 64 == s % 64 else 0
    if g == "r": i, g = i % 1048576, "p"
    if g == "p":
        x = (i + s * 131) % 32749
        y = (i // 32749) % 1021
        return ((x * x) % 65521 + x * 167 + y * 7919 + (x // 256) * 31) & 255
    raise KeyError(g)


def msg_bytes(m):
    if m[0] == "x":
        return m[2]
    return bytes(gen_byte(m[0], m[1], i) for i in range(m[2]))


class Case:
    __slots__ = ("id", "fn", "m", "x", "y")

    def __init__(self, id, fn, m, x, y=0):
        self.id, self.fn, self.m, self.x, self.y = id, fn, m, x & M64, y & M64

    def line(self):
        return f"{self.id} {self.fn} {msg_text(self.m)} {self.x:016x} {self.y:016x}\n"

    def describe(self):
        return {"fn": self.fn, "message": msg_text(self.m)[:400], "x": hex(self.x), "y": hex(self.y)}


# --------------------------------------------------------------------------
# running the hash driver and judging its observations

def run_driver(path, plan, places="few", exact=False, pages=40, timeout=600, env=None, args=None, shards=1):
    cmd = [path, plan, places, "1" if exact else "0", str(pages)] + list(args or [])
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = run(cmd, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    return r.stdout.decode(errors="replace"), r


def collect(work, bins, cases, places="few", exact=False, pages=40, label="plan", env=None):
    """Runs every binary on all cases (sharded); returns
    {(case id, result, extra): [(config, placement), ...]}, calls-per-config"""
    nshard = max(1, min(NCPU, len(cases) // 200 + 1))
    plans = []
    for k in range(nshard):
        p = work.path(f"{label}-{k}.txt")
        with open(p, "w") as f:
            for c in cases[k::nshard]:
                f.write(c.line())
        plans.append((p, len(cases[k::nshard])))
    obs = {}
    futs = []
    for name, b in bins.items():
        for p, n in plans:
            futs.append((name, n, work.pool.submit(run_driver, b, p, places, exact, pages, 800, env)))
    for name, n, f in futs:
        out, r = f.result()
        if out is None:
            raise CheckError(f"driver {name} timed out")
        done = False
        for line in out.splitlines():
            t = line.split(" ")
            if t[0] == "R" and len(t) >= 5:
                obs.setdefault((t[1], t[2], t[3]), []).append((name, t[4]))
            elif t[0] == "DONE":
                done = True
        if not done and r.returncode != 0:
            # the driver died in a way its own handlers could not contain
            last = [l for l in out.splitlines() if l.startswith("R ")]
            lid = last[-1].split(" ")[1] if last else "?"
            obs.setdefault((lid, f"died:{r.returncode}", "-"), []).append((name, "after-this-case"))
    return obs


def is_word(s):
    return len(s) == 16 and re.fullmatch(r"[0-9a-f]{16}", s) is not None


def judge(work, cases, obs, module="ObsHash", alias=None):
    """TLC decides which observations the specification allows. Returns (list
    of rejected keys with the expected value), TlcResult, number judged)."""
    byid = {c.id: c for c in cases}
    rejected = []
    path = work.path(f"obs-{module}-{random.getrandbits(32):x}.ndjson")
    keys = []
    with open(path, "w") as f:
        for key in sorted(obs):
            cid, r, e = key
            c = byid.get(cid)
            if c is None or not is_word(r):
                rejected.append((key, None))
                continue
            fn = (alias or {}).get(c.fn, c.fn)
            rec = {"id": str(len(keys)), "f": fn, "m": msg_json(c.m), "x": limbs(c.x), "y": limbs(c.y),
                   "r": limbs(int(r, 16)), "e": limbs(int(e, 16)) if e != "-" else []}
            f.write(json.dumps(rec) + "\n")
            keys.append(key)
    if not keys:
        return rejected, None, 0
    t = work.tlc(module, env={"OBS": path})
    t.require("observations")
    for m in re.finditer(r'"REJECT",\s*"(\d+)",\s*<<\s*<<([\d,\s]+)>>,\s*<<([\d,\s]*)>>\s*>>', t.out):
        exp = unlimbs([int(v) for v in m.group(2).split(",")])
        ex = unlimbs([int(v) for v in m.group(3).split(",")]) if m.group(3).strip() else None
        rejected.append((keys[int(m.group(1))], (exp, ex)))
    nrej = t.out.count('"REJECT"')
    if nrej and not any(e is not None for _, e in rejected):
        raise CheckError("could not parse TLC's rejections:\n" + t.out[-2000:])
    return rejected, t, len(keys)


# --------------------------------------------------------------------------
# verdicts

class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{pid}-{self.seed}-{self.tier}")
        self.t0 = time.time()
        self.work = Work(pid)
        self.coverage = {}
        self.states = self.transitions = 0
        self.traces = 0
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.notes = []
        self.models = []

    # model results
    def model(self, name, t, what=""):
        self.states += t.distinct
        self.transitions += t.generated
        self.models.append({"model": name, "distinct_states": t.distinct, "states_generated": t.generated, "what": what})

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violate(self, what, detail):
        self.violations.append({"what": what, "detail": detail})

    def finish(self):
        known = load_known()
        out_known, real = [], []
        for v in self.violations:
            k = match_known(known, self.pid, v)
            (out_known if k else real).append((k, v))
        for k in sorted({k for k, _ in out_known}):
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        rc = 0
        if real:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.pid}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed,
                           "violations": [v for _, v in real[:50]], "count": len(real)}, f, indent=1)
            for _, v in real[:5]:
                print(f"  {v['what']}: {json.dumps(v['detail'])[:600]}")
            print(f"VIOLATION property={self.pid} replay={path}")
            rc = 1
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict({"states": self.states, "transitions": self.transitions,
                                "traces_validated_against_impl": self.traces,
                                "samples": self.samples, "models": self.models}, **self.coverage),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(real), "notes": self.notes}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid} {self.tier}: {'VIOLATED' if rc else 'held'}; states={self.states} traces={self.traces} "
              f"wall={ev['wall_s']}s")
        return rc


def load_known():
    p = os.path.join(VERIF, "known-findings.txt")
    res = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l.strip())
            if m:
                res.append(m.groups())
    return res


def match_known(known, pid, v):
    for p, rx, text in known:
        if p == pid and re.search(rx, v["what"] + " " + json.dumps(v["detail"])):
            return text
    return None


def main(fn, pid, level):
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        print(f"ERROR {pid}: {e}", file=sys.stderr)
        rc = 2
    except BuildFailed as e:
        print(f"ERROR {pid}: build failed: {e}", file=sys.stderr)
        rc = 2
    finally:
        c.work.close()
    sys.exit(rc)
