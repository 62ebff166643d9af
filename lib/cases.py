"""Generators of inputs for the hash functions. Nothing here decides what a
result should be; that is the specification's business. The small amount of
t1ha arithmetic below only steers multiplication operands to chosen values."""
import struct
from vt import Case, M64

ALL64 = ["2a64", "2a128", "2s64", "2s128", "1le", "1be", "0le", "0be", "aes", "avx", "avx2"]
P = [0xEC99BF0D8372CAAB, 0x82434FE90EDCEF39, 0xD4F06DB99D67BE4B, 0xBD9CACC22C6E9571,
     0x9C06FAF4D023E3AB, 0xC060724A8424F345, 0xCB5AF53AE3AAAC31]
P32 = [0x92D78269, 0xCA9B4735, 0xA4ABA1C3, 0xF6499843, 0x86F0FD61, 0xCA2DA6FB, 0xC4BB3575]
M32 = (1 << 32) - 1


def rot(v, s):
    return ((v >> s) | (v << (64 - s))) & M64


def mixup(a, b, v, p):
    m = ((b + v) & M64) * p
    return a ^ (m & M64), (b + (m >> 64)) & M64


def targets(rng, n):
    halves = [0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x10000, 0xffff, 0xffff0000]
    fixed = [(h << 32) | l for h in halves for l in halves]
    inv = [pow(p, -1, 1 << 64) for p in P] + [(-pow(p, -1, 1 << 64)) & M64 for p in P]
    # products whose low half is tiny, all ones or a bare top bit
    inv += [(pow(p, -1, 1 << 64) * k) & M64 for p in P for k in (2, 1 << 31, 1 << 32, 1 << 63, M32, M64 - M32)]
    pool = fixed + inv
    rng.shuffle(pool)
    res = pool[:n]
    while len(res) < n:
        h = rng.choice(halves + [rng.getrandbits(32)] * 6)
        l = rng.choice(halves + [rng.getrandbits(32)] * 6)
        res.append((h << 32) | l)
    return res


# upper halves of operands whose product with the prime has, in the sum of its upper partial products, 32 ones
# below the last carry: the carry then runs through both halves of a word, where it is added in halves
EDGES = {0: [0x32ef7fe4, 0x65deffc8, 0x9556d83b, 0x98ce7fac, 0xcbbdff90, 0xfead7f74], 1: [0x577461b3, 0xaee8c366, 0xd27b87a7],
         2: [0x4e709ae9, 0xc91c7777], 3: [0x8584e2be], 4: [0x74096704, 0x91d49bc7],
         5: [0x17ecd8d7, 0x2fd9b1ae, 0x47c68a85, 0x5fb3635c, 0x77a03c33], 6: [0x7fef6afc, 0xffded5f8]}


def carries(a, p):
    """whether a carry comes in where the sum so far ends in 32 ones"""
    ll, lh, hl, hh = (a & M32) * (p & M32), (a >> 32) * (p & M32), (a & M32) * (p >> 32), (a >> 32) * (p >> 32)
    l = ll + (lh << 32 & M64)
    if l > M64 and hh & M32 == M32: return True
    h = hh + (lh >> 32) + (l >> 64)
    return h & M32 == M32 and (l & M64) + (hl << 32 & M64) > M64


def carry_edge(rng, k):
    """an operand for the multiplication by prime k"""
    for _ in range(400):
        a = rng.choice(EDGES[k]) << 32 | rng.getrandbits(32)
        if carries(a, P[k]): break
    return a


def words_le(ws):
    return b"".join(struct.pack("<Q", w & M64) for w in ws)


def swap64(w):
    return struct.unpack(">Q", struct.pack("<Q", w & M64))[0]


def steer_tail_ab(ln, a, b, ts):
    """message words (whole ones) making the mixup operands equal to ts"""
    n = (ln + 7) // 8
    ws = []
    for k in range(4 - n, 4):
        t = ts[k]
        if k in (0, 2):
            v = (t - b) & M64
            a, b = mixup(a, b, v, P[4 - k])
        else:
            v = (t - a) & M64
            b, a = mixup(b, a, v, P[4 - k])
        ws.append(v)
    return ws


def init_cd(x, y):
    return (rot(y, 23) + (x ^ M64)) & M64, ((y ^ M64) + rot(x, 19)) & M64


def steer_tail_abcd(ln, s, ts):
    a, b, c, d = s
    n = (ln + 7) // 8
    ws = []
    for k in range(4 - n, 4):
        t = ts[k]
        if k == 0:
            v = (t - d) & M64; a, d = mixup(a, d, v, P[4])
        elif k == 1:
            v = (t - a) & M64; b, a = mixup(b, a, v, P[3])
        elif k == 2:
            v = (t - b) & M64; c, b = mixup(c, b, v, P[2])
        else:
            v = (t - c) & M64; d, c = mixup(d, c, v, P[1])
        ws.append(v)
    return ws


def steer_block2(s, t5, t6, rng):
    """one t1ha2 block whose two low multiplications get operands t5, t6"""
    a, b, c, d = s
    w2 = rng.getrandbits(64)
    # d02 + w3 = t5 with d02 = w0 + rot(w2 + d, 56); c13 + w2 = t6 with c13 = w1 + rot(w3 + c, 19)
    w3 = rng.getrandbits(64)
    w0 = (t5 - w3 - rot((w2 + d) & M64, 56)) & M64
    w1 = (t6 - w2 - rot((w3 + c) & M64, 19)) & M64
    return [w0, w1, w2, w3]


def steered(rng, fn, count):
    """cases with chosen multiplication operands"""
    out = []
    ts = targets(rng, 4 * count)
    for i in range(count):
        T = ts[4 * i:4 * i + 4]
        if i % 4 == 3: T = [carry_edge(rng, 4 - k) for k in range(4)]
        seed = rng.choice([0, M64, rng.getrandbits(64), T[0]])
        y = rng.choice([0, M64, rng.getrandbits(64)])
        ln = rng.choice([8, 16, 24, 32])
        if fn in ("2a64", "aes", "avx", "avx2"):
            ws = steer_tail_ab(ln, seed, ln, T)
            msg = words_le(ws)
            if fn == "2a64" and i % 3 == 0:
                c, d = init_cd(seed, 64)
                msg = words_le(steer_block2((seed, 64, c, d), T[0], T[1], rng)) + words_le([rng.getrandbits(64)] * 4)
        elif fn == "2a128":
            ws = steer_tail_abcd(ln, (seed, ln) + init_cd(seed, ln), T)
            msg = words_le(ws)
            if i % 3 == 0:
                msg = words_le(steer_block2((seed, 64) + init_cd(seed, 64), T[0], T[1], rng)) + words_le([rng.getrandbits(64)] * 4)
        elif fn in ("2s64", "2s128"):
            if i % 2:
                msg = words_le(steer_block2((seed, y) + init_cd(seed, y), T[0], T[1], rng)) + words_le([T[2]] * rng.randrange(4))
            else:
                ln = rng.choice([8, 16])
                msg = words_le(steer_tail_abcd(ln + 8, (seed, y) + init_cd(seed, y), T)[:ln // 8])
        elif fn in ("1le", "1be"):
            ws = T[4 - ln // 8:]
            if i % 3 == 0:
                L = 64
                c = (rot(L, 17) + seed) & M64
                d = L ^ rot(seed, 17)
                w2, w3 = rng.getrandbits(64), rng.getrandbits(64)
                w0 = ((T[0] - w3) & M64) ^ rot((w2 + d) & M64, 17)
                w1 = ((T[1] - w2) & M64) ^ rot((w3 + c) & M64, 17)
                ws = [w0, w1, w2, w3] + [T[2], T[3]] * 2
            msg = words_le([swap64(w) for w in ws] if fn == "1be" else ws)
        elif fn in ("0le", "0be"):
            ln = rng.choice([4, 8, 12, 16])
            r32 = lambda v, s: ((v >> s) | (v << (32 - s))) & M32
            a = (r32(ln, 17) + (seed & M32)) & M32
            b = ln ^ (seed >> 32)
            ws = []
            for k in range(4 - ln // 4, 4):
                t = T[k] & M32 if i % 2 else T[k] >> 32
                p = P32[4 - k]
                if k in (0, 2):
                    v = (t - b) & M32
                    m = t * p
                    a ^= m & M32; b = (b + (m >> 32)) & M32
                else:
                    v = (t - a) & M32
                    m = t * p
                    b ^= m & M32; a = (a + (m >> 32)) & M32
                ws.append(v)
            msg = b"".join(struct.pack(">I" if fn == "0be" else "<I", w) for w in ws)
        else:
            continue
        out.append((("x", 0, msg), seed, y))
    return out


SPECIAL_SEEDS = [0, M64, 1, 1 << 63, M32, M64 ^ M32, 0x8000000080000000, 0x0123456789abcdef]
KEY_LENS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 47, 48, 63, 64, 65, 79, 80, 95,
            96, 97, 111, 112, 127, 128, 129, 143, 144, 159, 160, 191, 192, 255, 256, 257, 300]


def value_cases(rng, fns, dense=530, longs=(), nseed=64, nsteer=150, npat=1, nrand=150, tag=""):
    """Cases for each function: every length below `dense`; seeds with single
    bits set and cleared; patterned data; steered operands; random messages;
    long messages."""
    out = []

    def add(fn, m, x, y=None):
        out.append(Case(f"{tag}{len(out)}", fn, m, x, rng.getrandbits(64) if y is None else y))

    for fn in fns:
        for n in range(dense):
            add(fn, ("p", rng.randrange(200), n), rng.getrandbits(64))
        for k in range(npat):
            for g in "zfch":
                for n in KEY_LENS:
                    add(fn, (g, rng.randrange(256), n), rng.choice(SPECIAL_SEEDS + [rng.getrandbits(64)] * 4))
        for b in range(nseed):
            for s in (1 << b, M64 ^ (1 << b)):
                n = rng.choice(KEY_LENS)
                add(fn, ("p", rng.randrange(200), n), s, s if b % 2 else None)
        for s in SPECIAL_SEEDS:
            for n in (0, 3, 8, 21, 32, 33, 150):
                add(fn, ("p", rng.randrange(200), n), s, rng.choice(SPECIAL_SEEDS))
        for m, x, y in steered(rng, fn, nsteer):
            add(fn, m, x, y)
        for _ in range(nrand):
            n = int(2 ** rng.uniform(0, 11))
            if n <= 96:
                m = ("x", 0, bytes(rng.getrandbits(8) for _ in range(n)))
            else:
                m = ("p", rng.randrange(5000), n)
            add(fn, m, rng.getrandbits(64))
        # a single byte set anywhere in a message of zeros or ones
        for _ in range(nrand // 3):
            n = rng.randrange(1, 140)
            b = bytearray([rng.choice([0, 255])] * n)
            b[rng.randrange(n)] = rng.choice([0, 1, 127, 128, 255])
            add(fn, ("x", 0, bytes(b)), rng.choice(SPECIAL_SEEDS))
        for n in longs:
            add(fn, ("p", rng.randrange(200), n), rng.getrandbits(64))
    return out


def long_lengths(rng, n, top):
    """lengths around powers of two and page multiples, up to top"""
    res = set()
    k = 10
    while (1 << k) <= top:
        for d in (-1, 0, 1, rng.randrange(2, 64)):
            res.add((1 << k) + d)
        k += 1
    pool = sorted(x for x in res if x <= top)
    rng.shuffle(pool)
    pool = pool[:n]
    for _ in range(n // 3):
        pool.append(int(2 ** rng.uniform(9, top.bit_length() - 1)))
    return pool
