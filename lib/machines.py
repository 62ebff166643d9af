"""Foreign machines: the library compiled for MIPS (either byte order, 32 and
64 bits) and SPARC (big-endian), executed by the cores in drivers/."""
import glob, os, struct, subprocess
import vt

GUEST = os.path.join(vt.DRV, "guest")
LLD = next((p for p in ("/usr/bin/ld.lld-18", "/usr/bin/ld.lld", "/usr/lib/llvm-18/bin/ld.lld") if os.path.exists(p)), "ld.lld-18")

ARM32 = ["-marm", "-mfloat-abi=soft", "-mfpu=none"]
TOLERANT = ("arm32le", "arm32be", "arm64le", "arm64be")     # the header expects them to read misaligned words
ARCH = {
    # name: (target, flags, cpu, big-endian, 64-bit)
    "mips32be": ("mips-linux-gnu", ["-mcpu=mips32r2", "-mno-abicalls", "-G0", "-msoft-float"], 0, 1, 0),
    "mips32le": ("mipsel-linux-gnu", ["-mcpu=mips32r2", "-mno-abicalls", "-G0", "-msoft-float"], 0, 0, 0),
    "mips64be": ("mips64-linux-gnuabi64", ["-mcpu=mips64r2", "-mno-abicalls", "-G0", "-msoft-float"], 0, 1, 1),
    "mips64le": ("mips64el-linux-gnuabi64", ["-mcpu=mips64r2", "-mno-abicalls", "-G0", "-msoft-float"], 0, 0, 1),
    # ARMv7 may read words, not pairs of words, at any address; the strict ones are told not to
    "arm32le": ("armv7a-linux-gnueabi", ARM32, 2, 0, 0),
    "arm32be": ("armebv7a-linux-gnueabi", ARM32, 2, 1, 0),
    "arm32le-strict": ("armv7a-linux-gnueabi", ARM32 + ["-mno-unaligned-access"], 2, 0, 0),
    "arm32be-strict": ("armebv7a-linux-gnueabi", ARM32 + ["-mno-unaligned-access"], 2, 1, 0),
    "arm64le": ("aarch64-linux-gnu", ["-mgeneral-regs-only"], 3, 0, 1),
    "arm64be": ("aarch64_be-linux-gnu", ["-mgeneral-regs-only"], 3, 1, 1),
    "arm64le-strict": ("aarch64-linux-gnu", ["-mgeneral-regs-only", "-mno-unaligned-access"], 3, 0, 1),
    "arm64be-strict": ("aarch64_be-linux-gnu", ["-mgeneral-regs-only", "-mno-unaligned-access"], 3, 1, 1),
    "sparc32be": ("sparc-linux-gnu", ["-msoft-float"], 1, 1, 0),
    "sparc64be": ("sparcv9-linux-gnu", ["-msoft-float"], 1, 1, 1),
}


# as compilers of another make: without GNU's and clang's extensions, or with attributes only
GENERIC = ["-U__clang__", "-U__GNUC__", "-U__GNUC_MINOR__", "-D__has_builtin(x)=0", "-D__has_attribute(x)=0", "-U__SIZEOF_INT128__",
           "-U__BYTE_ORDER__", "-U__ORDER_LITTLE_ENDIAN__", "-U__ORDER_BIG_ENDIAN__", "-fno-strict-aliasing"]
ATTRIBUTES = ["-U__clang__", "-U__GNUC__", "-U__GNUC_MINOR__", "-D__has_builtin(x)=0"]


class Machine:
    """One foreign build. strict: misaligned accesses trap."""

    def __init__(self, arch, strict=None, opt="-O2", ndebug=True, defs=(), tag="", lib=()):
        if strict is None: strict = arch not in TOLERANT
        self.arch, self.strict, self.opt, self.ndebug, self.defs = arch, strict, opt, ndebug, list(defs)
        self.name = f"{arch}{tag}"
        self.lib = list(lib)       # options for the library alone
        self.target, self.flags, self.cpu, self.be, self.wide = ARCH[arch]

    def exact(self):
        return "T1HA_USE_FAST_ONESHOT_READ=0" in self.defs

    def dis(self):
        return [k for k in (0, 1, 2) if f"T1HA{k}_DISABLED" in self.defs]

    def record(self):
        """the build as spec/Build.tla has it"""
        return {"word": 64 if self.wide else 32, "be": bool(self.be), "dis": self.dis(), "x86": False, "aes": False,
                "rt": "T1HA0_RUNTIME_SELECT=1" in self.defs, "ifunc": False,
                "def": "T1HA0_USE_DEFINE=1" in self.defs}


def _cc(cmd, name):
    r = vt.run(cmd)
    if r.returncode:
        raise vt.BuildFailed(name, " ".join(cmd[-3:]), r.stderr.decode(errors="replace"))


def objects(work, m):
    d = work.path("mach-" + m.name)
    os.makedirs(d, exist_ok=True)
    res = vt.run(["clang", "-print-resource-dir"]).stdout.decode().strip()
    fl = ["clang", "-target", m.target] + m.flags + ["-std=gnu11", "-D_DEFAULT_SOURCE", "-ffreestanding", "-fno-pic",
          "-fno-stack-protector", "-fno-asynchronous-unwind-tables", "-w", "-nostdinc", "-isystem", os.path.join(GUEST, "include"), "-isystem", os.path.join(GUEST, "sysinc"),
          "-isystem", os.path.join(res, "include"), m.opt, "-I", vt.REPO] + (["-DNDEBUG"] if m.ndebug else []) + \
         ["-D" + x for x in m.defs]
    objs, futs = [], []
    for s in vt.lib_sources():
        if "ia32aes" in os.path.basename(s):
            continue
        o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
        objs.append(o)
        futs.append(work.pool.submit(_cc, fl + m.lib + ["-fvisibility=hidden", "-Dt1ha_EXPORTS", "-c", s, "-o", o], m.name))
    o = os.path.join(d, "guest.o")
    objs.append(o)
    # the guest's own routines must not be turned into calls of themselves
    futs.append(work.pool.submit(_cc, fl + ["-fno-builtin", "-c", os.path.join(GUEST, "guest.c"), "-o", o], m.name))
    for f in futs:
        f.result()
    return objs


class Elf:
    def __init__(self, data):
        self.d = data
        self.wide = data[4] == 2
        self.e = ">" if data[5] == 2 else "<"
        if self.wide:
            (self.type, self.mach, _, self.entry, self.phoff, self.shoff, _, _, self.phent, self.phnum, self.shent, self.shnum,
             self.shstr) = struct.unpack_from(self.e + "HHIQQQIHHHHHH", data, 16)
        else:
            (self.type, self.mach, _, self.entry, self.phoff, self.shoff, _, _, self.phent, self.phnum, self.shent, self.shnum,
             self.shstr) = struct.unpack_from(self.e + "HHIIIIIHHHHHH", data, 16)
        self.sec = []
        for i in range(self.shnum):
            o = self.shoff + i * self.shent
            if self.wide:
                n, t, fl, a, off, sz, link, info, al, ent = struct.unpack_from(self.e + "IIQQQQIIQQ", data, o)
            else:
                n, t, fl, a, off, sz, link, info, al, ent = struct.unpack_from(self.e + "IIIIIIIIII", data, o)
            self.sec.append(dict(n=n, t=t, fl=fl, a=a, off=off, sz=sz, link=link, info=info, al=al, ent=ent))
        st = self.sec[self.shstr]
        for s in self.sec:
            s["name"] = self.str(st, s["n"])

    def str(self, sec, i):
        o = sec["off"] + i
        return self.d[o:self.d.index(b"\0", o)].decode()

    def symbols(self):
        for s in self.sec:
            if s["t"] == 2:
                st = self.sec[s["link"]]
                n = 24 if self.wide else 16
                for i in range(s["sz"] // n):
                    o = s["off"] + i * n
                    if self.wide:
                        nm, info, oth, shn, v, sz = struct.unpack_from(self.e + "IBBHQQ", self.d, o)
                    else:
                        nm, v, sz, info, oth, shn = struct.unpack_from(self.e + "IIIBBH", self.d, o)
                    yield dict(i=i, name=self.str(st, nm), info=info, shn=shn, v=v, sz=sz)

    def segments(self):
        for i in range(self.phnum):
            o = self.phoff + i * self.phent
            if self.wide:
                t, _, off, va, _, fs, ms, _ = struct.unpack_from(self.e + "IIQQQQQQ", self.d, o)
            else:
                t, off, va, _, fs, ms, _, _ = struct.unpack_from(self.e + "IIIIIIII", self.d, o)
            if t == 1 and ms:
                yield va, self.d[off:off + fs] + bytes(ms - fs)


def image(path, m, segs, syms, inits):
    with open(path, "wb") as f:
        f.write(b"IMG1" + struct.pack("<5I", m.cpu, m.be, m.wide, 1 if m.strict else 0, len(segs)))
        for a, b in segs:
            f.write(struct.pack("<QQ", a, len(b)) + b)
        f.write(struct.pack("<QQ", syms["guest_run"], syms["P"]))
        for a in inits:
            f.write(struct.pack("<Q", a))


def read_inits(segs, lo, hi, m):
    n = 8 if m.wide else 4
    res = []
    for a in range(lo, hi, n):
        for s, b in segs:
            if s <= a < s + len(b):
                res.append(int.from_bytes(b[a - s:a - s + n], "big" if m.be else "little"))
    return [x for x in res if x]


def link(work, m, objs):
    out = work.path(f"mach-{m.name}.img")
    if m.arch == "sparc32be":
        segs, syms, inits = link_sparc32(m, objs)
        image(out, m, segs, syms, inits)
        return out
    elf = work.path(f"mach-{m.name}.elf")
    r = vt.run([LLD, "--unresolved-symbols=ignore-all", "-e", "guest_run", "-Ttext=0x20000", "--image-base=0x10000", "-z", "norelro", "-o", elf,
                "--defsym=_gp=0x80000"] + (["--be8"] if m.cpu == 2 and m.be else []) + objs)
    if r.returncode:
        raise vt.BuildFailed(m.name, "link", r.stderr.decode(errors="replace"))
    e = Elf(open(elf, "rb").read())
    segs = list(e.segments())
    syms = {s["name"]: s["v"] for s in e.symbols()}
    inits = []
    for s in e.sec:
        if s["name"] in (".init_array", ".ctors"):
            inits += read_inits(segs, s["a"], s["a"] + s["sz"], m)
    image(out, m, segs, syms, inits)
    return out


def link_sparc32(m, objs):
    """places the sections of relocatable SPARC V8 objects and applies their relocations"""
    base, chunks, glob_, elfs = 0x20000, [], {}, []
    inits = []
    for o in objs:
        e = Elf(open(o, "rb").read())
        place = {}
        for i, s in enumerate(e.sec):
            if s["fl"] & 2:  # SHF_ALLOC
                base = (base + max(s["al"], 1) - 1) // max(s["al"], 1) * max(s["al"], 1)
                body = bytearray(s["sz"]) if s["t"] == 8 else bytearray(e.d[s["off"]:s["off"] + s["sz"]])
                place[i] = (base, body)
                if s["name"].startswith((".init_array", ".ctors")):
                    inits.append((base, base + len(body)))
                chunks.append((base, body))
                base += s["sz"]
        for y in e.symbols():
            if y["shn"] == 0xfff2:  # common
                base = (base + 31) // 32 * 32
                glob_[y["name"]] = base
                chunks.append((base, bytearray(y["sz"])))
                base += y["sz"]
            elif y["shn"] in place and y["info"] >> 4 in (1, 2):
                glob_[y["name"]] = place[y["shn"]][0] + y["v"]
        elfs.append((e, place))
    for e, place in elfs:
        syms = list(e.symbols())
        for s in e.sec:
            if s["t"] != 4 or s["info"] not in place:
                continue
            at, body = place[s["info"]]
            for k in range(s["sz"] // 12):
                off, info, add = struct.unpack_from(">IIi", e.d, s["off"] + 12 * k)
                y, t = syms[info >> 8], info & 255
                v = place[y["shn"]][0] + y["v"] if y["shn"] in place else glob_.get(y["name"], y["v"] if y["shn"] == 0xfff1 else 0)
                v = (v + add) & 0xffffffff
                w = struct.unpack_from(">I", body, off)[0]
                p = at + off
                if t == 3: w = v                                             # R_SPARC_32
                elif t == 23: w = v                                          # UA32
                elif t == 7: w = (w & 0xc0000000) | ((v - p) >> 2 & 0x3fffffff)  # WDISP30
                elif t == 8: w = (w & 0xffc00000) | ((v - p) >> 2 & 0x3fffff)    # WDISP22
                elif t == 9: w = (w & 0xffc00000) | (v >> 10)                # HI22
                elif t == 10: w = (w & 0xffc00000) | (v & 0x3fffff)          # 22
                elif t == 11: w = (w & 0xffffe000) | (v & 0x1fff)            # 13
                elif t == 12: w = (w & 0xfffffc00) | (v & 0x3ff)             # LO10
                elif t == 0: pass
                else: raise vt.BuildFailed(m.name, "link", f"relocation type {t}")
                struct.pack_into(">I", body, off, w)
    segs = [(a, bytes(b)) for a, b in chunks if len(b)]
    segs.sort()
    lo = segs[0][0]
    flat = bytearray(base - lo)
    for a, b in segs:
        flat[a - lo:a - lo + len(b)] = b
    segs = [(lo, bytes(flat))]
    ini = []
    for a, b in inits:
        ini += read_inits(segs, a, b, m)
    return segs, glob_, ini


def emulator(work):
    out = work.path("machrun")
    r = vt.run(["gcc", "-O2", "-w"] + [os.path.join(vt.DRV, x) for x in ("machrun.c", "mips.c", "sparc.c", "arm.c", "a64.c")] + ["-o", out])
    if r.returncode:
        raise vt.CheckError("machrun: " + r.stderr.decode())
    return out


def host_compiles(work, m):
    """does the same command line build the library for the machine we are on?
    (the guest's C library is small: what it lacks is no fault of the library)"""
    h = Machine(m.arch, opt=m.opt, ndebug=m.ndebug, defs=m.defs, tag="-host-" + m.name, lib=m.lib)
    h.target, h.flags = "x86_64-linux-gnu", []
    h.defs += ["T1HA0_AESNI_AVAILABLE=0"] + ([] if any("INDIRECT" in d for d in h.defs) else ["T1HA_USE_INDIRECT_FUNCTIONS=0"])
    try:
        objects(work, h)
        return True
    except vt.BuildFailed:
        return False


def build(work, machines, failed):
    """{name: executable}: a wrapper that runs the image on its machine"""
    emu = emulator(work)
    import concurrent.futures as cf
    outer = cf.ThreadPoolExecutor(4)

    def one(m):
        img = link(work, m, objects(work, m))
        sh = work.path("run-" + m.name)
        with open(sh, "w") as f:
            f.write(f"#!/bin/sh\nexec {emu} {img} \"$@\"\n")
        os.chmod(sh, 0o755)
        return sh
    futs = {m.name: outer.submit(one, m) for m in machines}
    res = {}
    for n, f in futs.items():
        try:
            res[n] = f.result()
        except vt.BuildFailed as e:
            failed[n] = e.text
        except (KeyError, struct.error, ValueError) as e:
            failed[n] = f"not linked: {e!r}"
    outer.shutdown()
    return res
