"""Builds of the library whose CPUID answers are ours, and runs of them."""
import errno, os, re, time, json, shutil, stat, subprocess, concurrent.futures as cf
import vt, campaign
from vt import Config

OWN_PROBE = re.compile(r"__cpu_model|__cpu_indicator_init|__cpu_features2|__builtin_cpu")


class Bld:
    """A build: a Config and its description for the specification."""

    def __init__(self, name, dis=(), aes=True, rt=None, ifunc=None, m32=False, usedef=False, **kw):
        if rt is None: rt = aes
        if ifunc is None: ifunc = rt and not m32 and kw.get("kind", "host") == "host"
        defs = [f"T1HA{k}_DISABLED" for k in dis]
        defs += [f"T1HA0_AESNI_AVAILABLE={int(aes)}", f"T1HA0_RUNTIME_SELECT={int(rt)}",
                 f"T1HA_USE_INDIRECT_FUNCTIONS={int(ifunc)}"]
        if usedef: defs.append("T1HA0_USE_DEFINE=1")
        self.plain = kw.pop("plain", False)      # leave the defaults to the header
        if self.plain: defs = []
        self.cfg = Config(name, defs=defs + list(kw.pop("defs", [])), m32=m32, **kw)
        self.name = name
        self.spec = {"word": 32 if m32 else 64, "be": False, "dis": sorted(dis), "x86": True, "aes": aes, "rt": rt,
                     "ifunc": ifunc, "def": usedef}


def build(work, b, driver="dispdrv.c", lang="c"):
    """compiles to assembly, puts our CPUID in, links; returns (path, mocked: bool)"""
    c = b.cfg
    d = work.path("mock-" + c.name)
    os.makedirs(d, exist_ok=True)
    opt = [x for x in c.flags() if x != "-fPIC"] + ["-fno-pie", "-mno-red-zone"]
    own = [False]
    foreign = c.kind != "host"

    def one(s):
        base = os.path.basename(s)[:-2]
        asm, o = os.path.join(d, base + ".s"), os.path.join(d, base + ".o")
        if foreign:
            cmd = work.foreign(c, s) + ["-fno-pic", "-mno-red-zone", "-fno-addrsig", "-fno-asynchronous-unwind-tables", "-S", "-o", asm]
        else:
            cmd = [c.cc] + opt + ["-fvisibility=hidden", "-Dt1ha_EXPORTS"] + c.libonly + vt.aes_flags(s) + ["-I", vt.REPO, "-S", s, "-o", asm]
        work._cc(c.name, cmd)
        t = open(asm).read()
        if OWN_PROBE.search(t): own[0] = True
        t = re.sub(r"(^|[\s;])cpuid(?=\s|;|$)", r"\1call verif_cpuid", t, flags=re.M)
        t = re.sub(r"(^|[\s;])xgetbv(?=\s|;|$)", r"\1call verif_xgetbv", t, flags=re.M)
        open(asm, "w").write(t)
        cmd = [c.cc] + (["-m32"] if c.m32 else []) + ["-c", asm, "-o", o]
        work._cc(c.name, work.renamed(cmd, o) if c.win else cmd)
        return o

    objs = list(work.pool.map(one, vt.lib_sources() + ([vt.USER] if foreign else [])))
    if foreign:      # the driver takes t1ha0 from the toolchain's own header
        opt = [x for x in opt if "INDIRECT" not in x] + ["-DVERIF_USER", "-DT1HA_USE_INDIRECT_FUNCTIONS=1"] + (["-DVERIF_WIN"] if c.win else [])
    out = os.path.join(d, "drv")
    cc = c.cc
    if lang != "c":      # the driver in C++, linked with the C library
        cc = {"gcc": "g++", "clang": "clang++"}[c.cc]
        opt = [x for x in opt if not x.startswith("-std=")] + ["-std=c++11"]
    cmd = [cc] + opt + ["-no-pie", "-I", vt.REPO, "-I", vt.DRV, os.path.join(vt.DRV, driver),
                          os.path.join(vt.DRV, "mockcpu.S")] + \
          ([os.path.join(vt.DRV, "winshim.c")] if c.win else []) + objs + ["-o", out]
    work._cc(c.name, cmd)
    return out, not own[0]


def word(h):
    return (h[0] | h[1] << 16).to_bytes(4, "little")


def patch(binary, out, cpu):
    data = bytearray(open(binary, "rb").read())
    k = data.find(b"VERIFMOCKCPUTAB!")
    if k < 0 or data.find(b"VERIFMOCKCPUTAB!", k + 1) >= 0:
        raise vt.CheckError("no mock table in " + binary)
    t = b"".join(word(e[x]) for e in cpu["table"] for x in ("leaf", "sub", "a", "b", "c", "d"))
    data[k + 16:k + 16 + len(t)] = t
    # XCR0: the OS enables the extended states exactly if OSXSAVE says it manages them
    xcr = k + 16 + 16 * 24
    data[xcr:xcr + 4] = (7 if cpu["cpu"]["osxsave"] else 0).to_bytes(4, "little")
    with open(out, "wb") as f:
        f.write(data)
    os.chmod(out, 0o755)


def cpus(work):
    p = work.path("cpus.ndjson")
    t = work.tlc("DispatchGen", env={"OUT": p}).require("DispatchGen")
    return [json.loads(l) for l in open(p)], t


def supported(cpu):
    """what the host must have so that the choice can be executed"""
    c = cpu["cpu"]
    need = set()
    if c["max"] >= 1 and c["aes"]:
        need.add("aes")
        if c["osxsave"] and c["avx"]:
            need.add("avx")
            if c["max"] >= 7 and c["avx2"]: need.add("avx2")
    return need


def execute(work, binary, cpu, tag, args=(), timeout=40):
    out = binary + "." + tag
    patch(binary, out, cpu)
    for k in range(200):
        try:
            r = vt.run([out] + list(args), timeout=timeout)
            text, rc = r.stdout.decode(errors="replace"), r.returncode
            break
        except subprocess.TimeoutExpired as e:
            text, rc = (e.stdout or b"").decode(errors="replace"), "timeout"
            break
        except OSError as e:           # a child forked meanwhile still holds the file for writing
            if e.errno != errno.ETXTBSY or k == 199: raise vt.CheckError(str(e))
            time.sleep(0.02)
    os.unlink(out)
    return text, rc


def parse(text, rc):
    calls, selfs, resolve, end = [], [], "none", False
    for l in text.splitlines():
        t = l.split()
        if not t: continue
        if t[0] == "CALL" and len(t) == 5:
            r = vt.limbs(int(t[3], 16)) if vt.is_word(t[3]) else []
            calls.append({"k": t[1], "n": int(t[2]), "r": r, "in": [] if t[4] == "-" else t[4].split(",")})
        elif t[0] == "RESOLVE":
            resolve = t[1]
        elif t[0] == "SELF" and len(t) == 4:
            v = int(t[2]) if re.fullmatch(r"-?\d+", t[2]) else -99
            selfs.append({"k": t[1], "rc": v, "in": [] if t[3] == "-" else t[3].split(",")})
        elif t[0] == "END":
            end = True
    return calls, selfs, resolve, end
