"""C21: programs compiled together with the library (link-time optimisation, one unit)."""
import json, os, re, struct
import vt, campaign, configs
from configs import Config, ONESHOT0, UN
from streams import seed as pick_seed

M64 = (1 << 64) - 1
X0 = 0x9E3779B97F4A7C15
CT = {"u8": "uint8_t", "i16": "int16_t", "u32": "uint32_t", "i32": "int32_t", "f32": "float", "u64": "uint64_t",
      "i64": "int64_t", "f64": "double"}
SZ = {"u8": 1, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8}
CALL = {"2a64": "t1ha2_atonce", "1le": "t1ha1_le", "1be": "t1ha1_be", "0le": "t1ha0_32le", "0be": "t1ha0_32be",
        "aes": "t1ha0_ia32aes_noavx", "avx": "t1ha0_ia32aes_avx", "avx2": "t1ha0_ia32aes_avx2"}
# Without vectorisation: GVN of clang 18 takes a byte for undefined if a wide vector load at its address, beyond
# the object and on a path that is not taken, precedes its load (reduced to ten lines of IR; no fault of the library).
LLD = ["-flto", "-fuse-ld=lld", "-Wl,-mllvm,-inline-threshold=3000", "-fno-vectorize", "-fno-slp-vectorize",
       "-Wl,-mllvm,-vectorize-slp=false", "-Wl,-mllvm,-vectorize-loops=false"]

QUICK = [Config("lto-O2", opt="-O2", extra=["-flto=4"]),
         Config("lto-O3", opt="-O3", extra=["-flto=4"]),
         Config("lto-O2-32", opt="-O2", m32=True, extra=["-flto=4"]),
         Config("lto-slow", opt="-O2", defs=[UN(1)], extra=["-flto=4"]),
         Config("lto-unable-calm", opt="-O2", defs=[UN(0), ONESHOT0], extra=["-flto=4"]),
         Config("lto-slow-calm32", opt="-O3", m32=True, defs=[UN(1), ONESHOT0], extra=["-flto=4"]),
         Config("clang-lto-O2", cc="clang", opt="-O2", extra=LLD),
         Config("clang-lto-32", cc="clang", opt="-O3", m32=True, extra=LLD),
         Config("clang-lto-slow", cc="clang", opt="-O2", defs=[UN(1)], extra=LLD),
         Config("plain", opt="-O2")]
MORE = [Config("lto-Os", opt="-Os", extra=["-flto=4"]), Config("lto-O1", opt="-O1", extra=["-flto=4"]),
        Config("lto-calm", opt="-O2", defs=[ONESHOT0], extra=["-flto=4"]),
        Config("lto-unable32", opt="-O2", m32=True, defs=[UN(0)], extra=["-flto=4"]),
        Config("lto-assert", opt="-O2", ndebug=False, extra=["-flto=4"]),
        Config("lto-march", opt="-O3", extra=["-flto=4", "-march=native"]),
        Config("clang-lto-calm", cc="clang", opt="-O3", defs=[ONESHOT0], extra=LLD),
        Config("clang-lto-unable32", cc="clang", opt="-O2", m32=True, defs=[UN(0)], extra=LLD)]
# all sources in one unit with the program
UNITS = [Config("unit-gcc-O2", opt="-O2"), Config("unit-gcc-O3-32", opt="-O3", m32=True),
         Config("unit-clang-O2", cc="clang", opt="-O2", extra=["-fno-vectorize", "-fno-slp-vectorize"]), Config("unit-gcc-slow", opt="-O2", defs=[UN(1)])]


def generate(c, num, depth, brief=False):
    cfg = c.work.path(f"pg{depth}.cfg")
    text = open(os.path.join(vt.SPEC, "ProgramGen.cfg")).read().replace("Depth = 12", f"Depth = {depth}")
    if brief: text = text.replace("Shapes <- Free", "Shapes <- Brief").replace("MaxSize = 88", "MaxSize = 56")
    with open(cfg, "w") as f: f.write(text)
    t = c.work.tlc("ProgramGenMC", cfg=cfg, workers=1,
                   args=["-seed", str(c.rng.getrandbits(31)), "-simulate", f"num={num}", "-depth", str(depth + 50)])
    res = [json.loads(json.loads(l)[5:]) for l in t.out.splitlines() if l.startswith('"PROG ')]
    if not res: raise vt.CheckError("no programs generated:\n" + t.out[-2000:])
    m = re.search(r"number of states generated: (\d+)", t.out)
    c.models.append({"model": "ProgramGen (simulation)", "behaviours": len(res), "states_generated": int(m.group(1)) if m else 0})
    return res


class Program:
    """a generated program with its values: ops for the specification, text for the compiler"""

    def __init__(self, rng, g, k, fns):
        self.id, self.size, self.kind, self.layout = f"p{k}", g["size"], g["kind"], g["layout"]
        self.ops, self.body, self.fns = [], [], set()
        live = False
        done = {}
        for i, o in enumerate(g["ops"], 1):
            if o["o"] == "r":
                k, b = done[o["n"]]
                self.ops.append(dict(k)); self.body.append(b)
            elif o["o"] == "h":
                f = o["f"] if o["f"] in fns else "2a64"
                self.hash(rng, f, o["at"], o["n"])
                done[i] = self.ops[-1], self.body[-1]
            elif o["o"] == "s":
                self.store(rng, o["t"], o["at"])
            elif o["o"] == "a":
                ms = list(self.layout)
                if rng.random() < .3: rng.shuffle(ms)
                for m in ms: self.store(rng, m["t"], m["at"])
            elif o["o"] == "l":
                self.fill(rng, o["t"], o["at"], o["n"])
            elif o["o"] == "z":
                b = rng.choice([0, 0, 255, rng.getrandbits(8)])
                self.ops.append({"o": "z", "v": [b]})
                self.body.append(f"memset(OBJ, {b}, {self.size});")
            else:
                if o["o"] == "i": live = True
                if o["o"] in "fg": live = False
                self.stream(rng, o)
        if live: self.stream(rng, {"o": rng.choice("fg"), "at": 0, "n": 0})
        self.results = sum(o["o"] in ("h", "f", "g") for o in self.ops)
        self.storage = rng.choice(["auto", "auto", "static", "alloc", "param"])
        self.flat = rng.random() < .6 and not self.fns & {"aes", "avx", "avx2"}     # another instruction set cannot be inlined
        self.free = rng.random() < .7

    # the values
    def word(self, rng, t):
        """(value, expression)"""
        if t in ("f32", "f64"):
            if t == "f32":
                b = rng.getrandbits(32) & 0x807fffff | rng.randrange(1, 255) << 23
                v = struct.unpack("<f", struct.pack("<I", b))[0]
                return b, v.hex() + "f"
            b = rng.getrandbits(64) & 0x800fffffffffffff | rng.randrange(1, 2047) << 52
            return b, struct.unpack("<d", struct.pack("<Q", b))[0].hex()
        v = rng.choice([0, 1, M64, rng.getrandbits(64), rng.getrandbits(64), rng.getrandbits(16)])
        if rng.random() < .5:
            return (X0 + v) & M64, f"({CT[t]})(x + {v}u)" if v < 1 << 31 else f"({CT[t]})(x + {v}ull)"
        return v, f"({CT[t]}){v}ull"

    def place(self, t, at, i=None):
        if self.kind == "heap":
            return f"(({CT[t]} *)(OBJ + {at}))[{i or 0}]"
        if self.kind == "array":
            return f"k[{at // SZ[t]}{' + ' + i if i else ''}]"
        j = next(j for j, m in enumerate(self.layout) if m["at"] == at)
        return f"k->m{j}"

    def store(self, rng, t, at):
        v, e = self.word(rng, t)
        self.ops.append({"o": "s", "at": at, "k": SZ[t], "v": vt.limbs(v)})
        self.body.append(f"{self.place(t, at)} = {e};")

    def fill(self, rng, t, at, n):
        v, e = self.word(rng, t)
        w = 0 if t[0] == "f" else rng.choice([0, 1, rng.getrandbits(8), rng.getrandbits(64)])
        self.ops.append({"o": "l", "at": at, "k": SZ[t], "n": n, "v": vt.limbs(v), "w": vt.limbs(w)})
        if t[0] == "f": rhs = e
        else:
            rhs = f"({CT[t]})({'x + ' + str((v - X0) & M64) + 'ull' if 'x' in e else str(v) + 'ull'} + (uint64_t)i * {w}ull)"
        self.body.append(f"for (unsigned i = 0; i < {n}; i++) {self.place(t, at, 'i')} = {rhs};")

    def arg(self, rng, v):
        return f"{v}ull" if rng.random() < .5 else f"(x + {(v - X0) & M64}ull)"

    def length(self, rng, n):
        return f"{n}" if rng.random() < .6 else f"({n} + z)"

    def hash(self, rng, f, at, n):
        x = pick_seed(rng)
        self.fns.add(f)
        self.ops.append({"o": "h", "f": f, "at": at, "n": n, "x": vt.limbs(x)})
        p = f"OBJ + {at}, {self.length(rng, n)}, {self.arg(rng, x)}"
        self.body.append(f"{{ uint64_t e; uint64_t r = t1ha2_atonce128(&e, {p}); out(r, e); }}" if f == "2a128" else f"out({CALL[f]}({p}), 0);")

    def stream(self, rng, o):
        if o["o"] == "i":
            x, y = pick_seed(rng), pick_seed(rng)
            self.ops.append({"o": "i", "x": vt.limbs(x), "y": vt.limbs(y)})
            self.body.append(f"t1ha2_init(&ctx, {self.arg(rng, x)}, {self.arg(rng, y)});")
        elif o["o"] == "u":
            self.ops.append({"o": "u", "at": o["at"], "n": o["n"]})
            self.body.append(f"t1ha2_update(&ctx, OBJ + {o['at']}, {self.length(rng, o['n'])});")
        else:
            self.ops.append({"o": o["o"]})
            self.body.append("out(t1ha2_final(&ctx, NULL), 0);" if o["o"] == "f" else
                             "{ uint64_t e; uint64_t r = t1ha2_final(&ctx, &e); out(r, e); }")

    # the text
    def text(self):
        n, head, args, call, tail = self.id, [], "", "", ""
        if self.kind == "heap":
            head.append(f"unsigned char *const OBJ = malloc({self.size}); if (!OBJ) abort();")
            if self.free: tail = "free(OBJ);"
        else:
            if self.kind == "struct":
                t = f"struct s_{n}"
                pre = f"{t} {{ {' '.join(CT[m['t']] + ' m' + str(j) + ';' for j, m in enumerate(self.layout))} }};\n" + \
                      "".join(f"_Static_assert(offsetof({t}, m{j}) == {m['at']}, \"layout\");\n" for j, m in enumerate(self.layout))
                decl, obj = f"{t} o", "&o"
            else:
                t, pre = CT[self.layout[0]["t"]], ""
                decl, obj = f"{t} o[{len(self.layout)}]", "o"
            if self.storage == "alloc":
                head.append(f"{t} *const k = malloc({self.size + 8}); if (!k) abort();")
                if self.free: tail = "free(k);"
            elif self.storage == "param": args, call = f", {t} *k", f"{decl}; "
            else: head.append(f"{'static ' if self.storage == 'static' else ''}{decl}; {t} *const k = {obj};")
            head.append("const char *const OBJ0 = (const char *)k;")
        body = [b if self.kind == "heap" else b.replace("memset(OBJ,", "memset(k,").replace("OBJ +", "OBJ0 +") for b in self.body]
        pre = "" if self.kind == "heap" else pre
        fl = ", __flatten__" if self.flat else ""
        s = pre + f"static __attribute__((__noinline__{fl})) void {n}(uint64_t x, size_t z{args}) {{\n  " + "\n  ".join(head)
        if any(o["o"] == "i" for o in self.ops): s += "\n  t1ha_context_t ctx;"
        s += "\n  " + "\n  ".join(body) + f"\n  {tail}\n}}\n"
        run = f"  {{ rn = 0; {call}{n}(x, z{', ' + obj if args else ''}); show({json.dumps(n)}); }}\n"
        if self.fns & {"aes", "avx", "avx2"}:
            s, run = f"#if T1HA0_AESNI_AVAILABLE\n{s}#endif\n", f"#if T1HA0_AESNI_AVAILABLE\n{run}#endif\n"
        return s, run


HEAD = """#include "t1ha.h"
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
static uint64_t R[64][2];
static unsigned rn;
static __attribute__((__noinline__)) void show(const char *id) {
  printf("%s", id);
  for (unsigned i = 0; i < rn; i++) printf(" %016llx:%016llx", (unsigned long long)R[i][0], (unsigned long long)R[i][1]);
  printf("\\n");
}
static inline void out(uint64_t r, uint64_t e) { R[rn][0] = r; R[rn][1] = e; rn++; }
"""


def source(work, progs, name, unit=False):
    path = work.path(name)
    parts = [p.text() for p in progs]
    with open(path, "w") as f:
        f.write(HEAD)
        if unit: f.write("".join(f'#include "src/{s}.c"\n' for s in ("t1ha0", "t1ha1", "t1ha2")))
        f.write("".join(a for a, _ in parts) + "int main(int argc, char **argv) {\n  (void)argv;\n"
                f"  volatile uint64_t vx = {X0}ull; volatile size_t vz = 0; const uint64_t x = vx; const size_t z = vz;\n" +
                "".join(b for _, b in parts) + "  return 0;\n}\n")
    return path


def observe(binary):
    """{program: results or None}; a crash shows as missing programs"""
    r = vt.run(["stdbuf", "-oL", binary], timeout=120)
    out = {}
    for l in r.stdout.decode(errors="replace").splitlines():
        w = l.split()
        if w and all(re.fullmatch(r"[0-9a-f]{16}:[0-9a-f]{16}", x) for x in w[1:]): out[w[0]] = tuple(w[1:])
    return out, r.returncode


def judge(c, progs, obs, label):
    """obs: {(program id, results): [configuration]}"""
    byid = {p.id: p for p in progs}
    path = c.work.path(f"prog-{label}.ndjson")
    keys = list(obs)
    with open(path, "w") as f:
        for i, (pid, res) in enumerate(keys):
            p = byid[pid]
            r, k = [], 0
            kinds = [o for o in p.ops if o["o"] in ("h", "f", "g")]
            for x, o in zip(res, kinds):
                a, e = x.split(":")
                wide = o["o"] == "g" or o.get("f") == "2a128"
                r.append([vt.limbs(int(a, 16)), vt.limbs(int(e, 16)) if wide else []])
            f.write(json.dumps({"id": str(i), "size": p.size, "ops": p.ops, "r": r}) + "\n")
    t = c.work.tlc("ObsProgram", env={"OBS": path}).require("the recorded programs")
    rej = {}
    for m in re.finditer(r'"REJECT",\s*"(\d+)",\s*(\d+),\s*<<\s*<<([\d,\s]+)>>', t.out):
        rej.setdefault(int(m.group(1)), (int(m.group(2)), vt.unlimbs([int(v) for v in m.group(3).split(",")])))
    if t.out.count('"REJECT"') and not rej: raise vt.CheckError("could not parse TLC's rejections:\n" + t.out[-2000:])
    return {keys[i]: v for i, v in rej.items()}, t


def build(c, progs, cfgs, units):
    src = source(c.work, progs, "prog.c")
    usrc = source(c.work, progs, "unit.c", True)
    bins = campaign.build(c, cfgs, required=("lto-O2",), drivers=(src,))

    def unit(u):
        o = c.work.path("bin-" + u.name)
        r = vt.run([u.cc] + u.flags() + ["-w", "-DT1HA0_AESNI_AVAILABLE=0", "-DT1HA0_RUNTIME_SELECT=0", "-I", vt.REPO, usrc, "-o", o])
        return u.name, o if r.returncode == 0 else None, r.stderr.decode(errors="replace")
    for n, o, err in c.work.pool2.map(unit, units):
        if o: bins[n] = o
        else: c.notes.append(f"configuration {n} not built: {err[:300]}")
    return bins


def c21(c):
    t = c.work.tlc("Alias", cfg=os.path.join(vt.SPEC, "Alias.cfg")).require("reads that may alias anything")
    c.model("Alias", t, "reads of type char give what was written, whatever an optimiser does with accesses that its types separate")
    t = c.work.tlc("Alias", cfg=os.path.join(vt.SPEC, "AliasWord.cfg"))
    if "Faithful is violated" not in t.out: raise vt.CheckError("the model of word reads lost its counterexample:\n" + t.out[-2000:])
    c.model("Alias/words", t, "reads as words of one type do not (counterexample expected and found)")
    fns = campaign.runnable(["2a64", "2a128", "1le", "1be", "0le", "0be", "aes", "avx", "avx2"])
    gen = generate(c, 500 if c.thorough else 130, 12) + generate(c, 300 if c.thorough else 60, 6) + generate(c, 1200 if c.thorough else 260, 8, True)
    progs = [Program(c.rng, g, k, fns) for k, g in enumerate(gen)]
    progs = [p for p in progs if p.results]
    cfgs = QUICK + (MORE if c.thorough else [])
    bins = build(c, progs, cfgs, UNITS)
    if not any(n.startswith("unit") for n in bins): raise vt.CheckError("no configuration of one unit was built: " + "; ".join(c.notes))
    byid = {p.id: p for p in progs}

    def look(names):
        obs, lost = {}, []
        for n, (o, rc) in zip(names, c.work.pool.map(lambda n: observe(bins[n]), names)):
            for p in progs:
                if p.id in o: obs.setdefault((p.id, o[p.id]), []).append(n)
                elif rc: lost.append((p.id, n)); break       # the one that did not return
        return obs, lost
    obs, lost = look(list(bins))
    rej, t = judge(c, progs, obs, "first")
    c.model("ObsProgram", t, "every program computed the hashes of the bytes it had written")
    c.traces += len(obs)
    c.coverage.update(programs=len(progs), results=sum(p.results for p in progs), configurations=sorted(bins),
                      observations=sum(len(v) for v in obs.values()))
    if rej or lost:
        obs2, lost2 = look(sorted({n for k in rej for n in obs[k]} | {n for _, n in lost}))
        for k, (at, exp) in rej.items():
            if k in obs2:
                p = byid[k[0]]
                c.violate("a program compiled together with the library got a wrong hash",
                          {"configurations": obs2[k][:6], "operation": at, "specified": f"{exp:016x}", "observed": k[1],
                           "object": p.kind + "/" + p.storage, "program": p.text()[0][:1500]})
            else: c.notes.append(f"rejection of {k[0]} did not repeat")
        for k in set(lost) & set(lost2):
            c.violate("a program compiled together with the library does not return",
                      {"configuration": k[1], "program": byid[k[0]].text()[0][:1500]})
    for p in progs[:3]: c.sample({"program": p.text()[0][:600], "results": p.results})
    c.assumptions += ["little-endian x86; the optimisers are those of the installed GCC and clang",
                      "the programs are valid C: declared objects are written by the types of their members, allocated ones by any"]
