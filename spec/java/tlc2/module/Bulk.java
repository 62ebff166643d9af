package tlc2.module;

import tlc2.value.impl.*;

/** The fold Bulk!Run on machine words (see Bulk.tla). */
public class Bulk {
  static final int PERIOD = 1 << 20;
  static final long P0 = 0xEC99BF0D8372CAABL, P1 = 0x82434FE90EDCEF39L, P5 = 0xC060724A8424F345L,
                    P6 = 0xCB5AF53AE3AAAC31L;

  static final java.util.Map<Integer, byte[]> contents = new java.util.HashMap<>();

  static synchronized byte[] content(int salt) {
    byte[] c = contents.get(salt);
    if (c == null) {
      c = new byte[PERIOD + 256];
      for (int i = 0; i < c.length; ++i) {
        int j = i & (PERIOD - 1);
        int x = (int) ((j + (long) salt * 131) % 32749), y = (j / 32749) % 1021;
        c[i] = (byte) ((x * x) % 65521 + x * 167 + y * 7919 + (x / 256) * 31);
      }
      contents.put(salt, c);
    }
    return c;
  }

  static final java.lang.invoke.VarHandle LE64 =
      java.lang.invoke.MethodHandles.byteArrayViewVarHandle(long[].class, java.nio.ByteOrder.LITTLE_ENDIAN);
  static final java.lang.invoke.VarHandle LE32 =
      java.lang.invoke.MethodHandles.byteArrayViewVarHandle(int[].class, java.nio.ByteOrder.LITTLE_ENDIAN);

  static long w(byte[] c, int o, boolean be) {
    long v = (long) LE64.get(c, o);
    return be ? Long.reverseBytes(v) : v;
  }

  static int d(byte[] c, int o, boolean be) {
    int v = (int) LE32.get(c, o);
    return be ? Integer.reverseBytes(v) : v;
  }

  static long ror(long v, int s) { return Long.rotateRight(v, s); }
  static int ror(int v, int s) { return Integer.rotateRight(v, s); }

  public static Value Native() { return BoolValue.ValTrue; }

  public static Value Run(Value kind, Value state, Value salt, Value off, Value count) {
    String k = ((StringValue) kind).val.toString();
    TupleValue st = (TupleValue) state.toTuple();
    byte[] c = content(((IntValue) salt).val);
    int o = ((IntValue) off).val & (PERIOD - 1);
    long n = ((IntValue) count).val;
    long[][] s = new long[st.elems.length][];
    for (int i = 0; i < s.length; ++i) {
      TupleValue e = (TupleValue) st.elems[i].toTuple();
      s[i] = new long[(e.elems.length + 3) / 4];
      for (int j = 0; j < e.elems.length; ++j)
        s[i][j / 4] |= (long) ((IntValue) e.elems[j]).val << (16 * (j % 4));
    }
    int limbs = ((TupleValue) st.elems[0].toTuple()).elems.length;
    switch (k) {
    case "2": two(s, c, o, n); break;
    case "1le": one(s, c, o, n, false); break;
    case "1be": one(s, c, o, n, true); break;
    case "0le": zero(s, c, o, n, false); break;
    case "0be": zero(s, c, o, n, true); break;
    case "a": aesA(s, c, o, n); break;
    case "b": aesB(s, c, o, n); break;
    default: throw new RuntimeException("Bulk: " + k);
    }
    Value[] r = new Value[s.length];
    for (int i = 0; i < s.length; ++i) {
      Value[] l = new Value[limbs];
      for (int j = 0; j < limbs; ++j) l[j] = IntValue.gen((int) (s[i][j / 4] >>> (16 * (j % 4))) & 0xffff);
      r[i] = new TupleValue(l);
    }
    return new TupleValue(r);
  }

  static void two(long[][] s, byte[] m, int o, long n) {
    long a = s[0][0], b = s[1][0], c = s[2][0], d = s[3][0];
    for (; n > 0; --n) {
      long w0 = w(m, o, false), w1 = w(m, o + 8, false), w2 = w(m, o + 16, false), w3 = w(m, o + 24, false);
      long d02 = w0 + ror(w2 + d, 56), c13 = w1 + ror(w3 + c, 19);
      d ^= b + ror(w1, 38);
      c ^= a + ror(w0, 57);
      b ^= P6 * (c13 + w2);
      a ^= P5 * (d02 + w3);
      o = (o + 32) & (PERIOD - 1);
    }
    s[0][0] = a; s[1][0] = b; s[2][0] = c; s[3][0] = d;
  }

  static void one(long[][] s, byte[] m, int o, long n, boolean be) {
    long a = s[0][0], b = s[1][0], c = s[2][0], d = s[3][0];
    for (; n > 0; --n) {
      long w0 = w(m, o, be), w1 = w(m, o + 8, be), w2 = w(m, o + 16, be), w3 = w(m, o + 24, be);
      long d02 = w0 ^ ror(w2 + d, 17), c13 = w1 ^ ror(w3 + c, 17);
      d -= b ^ ror(w1, 31);
      c += a ^ ror(w0, 41);
      b ^= P0 * (c13 + w2);
      a ^= P1 * (d02 + w3);
      o = (o + 32) & (PERIOD - 1);
    }
    s[0][0] = a; s[1][0] = b; s[2][0] = c; s[3][0] = d;
  }

  static void zero(long[][] s, byte[] m, int o, long n, boolean be) {
    int a = (int) s[0][0], b = (int) s[1][0], c = (int) s[2][0], d = (int) s[3][0];
    for (; n > 0; --n) {
      int w0 = d(m, o, be), w1 = d(m, o + 4, be), w2 = d(m, o + 8, be), w3 = d(m, o + 12, be);
      int d13 = w1 + ror(w3 + d, 17), c02 = w0 ^ ror(w2 + c, 11);
      d ^= ror(a + w0, 3);
      c ^= ror(b + w1, 7);
      b = 0xCA9B4735 * (c02 + w3);
      a = 0x92D78269 * (d13 ^ w2);
      o = (o + 16) & (PERIOD - 1);
    }
    s[0][0] = a & 0xffffffffL; s[1][0] = b & 0xffffffffL; s[2][0] = c & 0xffffffffL; s[3][0] = d & 0xffffffffL;
  }

  // ---- one AES round, FIPS-197; register as two longs, low first
  static final int[] sbox = new int[256], inv = new int[256];
  static final int[][] te = new int[4][256], td = new int[4][256];

  static int gmul(int x, int y) {
    int r = 0;
    for (; y != 0; y >>= 1) {
      if ((y & 1) != 0) r ^= x;
      x <<= 1;
      if (x > 255) x ^= 0x11b;
    }
    return r;
  }

  static {
    for (int x = 0; x < 256; ++x) {
      int i = 0;
      if (x != 0) for (i = 1; gmul(x, i) != 1; ++i) { }
      int t = i;
      for (int j = 1; j <= 4; ++j) t ^= ((i << j) | (i >> (8 - j))) & 255;
      sbox[x] = t ^ 99;
      inv[sbox[x]] = x;
    }
    for (int x = 0; x < 256; ++x) {
      int s = sbox[x], t = inv[x];
      int e = gmul(s, 2) | s << 8 | s << 16 | gmul(s, 3) << 24;
      int d = gmul(t, 14) | gmul(t, 9) << 8 | gmul(t, 13) << 16 | gmul(t, 11) << 24;
      for (int r = 0; r < 4; ++r) {
        te[r][x] = Integer.rotateLeft(e, 8 * r);
        td[r][x] = Integer.rotateLeft(d, 8 * r);
      }
    }
  }

  static void enc(long[] x, long kl, long kh) { round(x, te, 1, kl, kh); }
  static void dec(long[] x, long kl, long kh) { round(x, td, 3, kl, kh); }

  static void round(long[] x, int[][] t, int step, long kl, long kh) {
    int c0 = (int) x[0], c1 = (int) (x[0] >>> 32), c2 = (int) x[1], c3 = (int) (x[1] >>> 32);
    int r0, r1, r2, r3;
    if (step == 1) {
      r0 = t[0][c0 & 255] ^ t[1][c1 >>> 8 & 255] ^ t[2][c2 >>> 16 & 255] ^ t[3][c3 >>> 24];
      r1 = t[0][c1 & 255] ^ t[1][c2 >>> 8 & 255] ^ t[2][c3 >>> 16 & 255] ^ t[3][c0 >>> 24];
      r2 = t[0][c2 & 255] ^ t[1][c3 >>> 8 & 255] ^ t[2][c0 >>> 16 & 255] ^ t[3][c1 >>> 24];
      r3 = t[0][c3 & 255] ^ t[1][c0 >>> 8 & 255] ^ t[2][c1 >>> 16 & 255] ^ t[3][c2 >>> 24];
    } else {
      r0 = t[0][c0 & 255] ^ t[1][c3 >>> 8 & 255] ^ t[2][c2 >>> 16 & 255] ^ t[3][c1 >>> 24];
      r1 = t[0][c1 & 255] ^ t[1][c0 >>> 8 & 255] ^ t[2][c3 >>> 16 & 255] ^ t[3][c2 >>> 24];
      r2 = t[0][c2 & 255] ^ t[1][c1 >>> 8 & 255] ^ t[2][c0 >>> 16 & 255] ^ t[3][c3 >>> 24];
      r3 = t[0][c3 & 255] ^ t[1][c2 >>> 8 & 255] ^ t[2][c1 >>> 16 & 255] ^ t[3][c0 >>> 24];
    }
    x[0] = ((r0 & 0xffffffffL) | (long) r1 << 32) ^ kl;
    x[1] = ((r2 & 0xffffffffL) | (long) r3 << 32) ^ kh;
  }

  static void aesA(long[][] s, byte[] m, int o, long n) {
    long[] x = s[0].clone(), y = s[1].clone(), p = new long[2], q = new long[2], z = new long[2];
    for (; n > 0; --n) {
      long[] v = new long[16];
      for (int i = 0; i < 16; ++i) v[i] = w(m, o + 8 * i, false);
      // v0y = enc(v0, y)
      p[0] = v[0]; p[1] = v[1];
      enc(p, y[0], y[1]);
      // dec(v7 - v0y, v1) ^ v5
      p[0] = v[14] - p[0]; p[1] = v[15] - p[1];
      dec(p, v[2] ^ v[10], v[3] ^ v[11]);
      // enc(enc(v2, x ^ v6), v3)
      q[0] = v[4]; q[1] = v[5];
      enc(q, x[0] ^ v[12], x[1] ^ v[13]);
      enc(q, v[6], v[7]);
      // enc(v4, v5) ^ (v6 + v7)
      z[0] = v[8]; z[1] = v[9];
      enc(z, v[10], v[11]);
      z[0] ^= v[12] + v[14]; z[1] ^= v[13] + v[15];
      enc(z, x[0] + y[0], x[1] + y[1]);
      enc(q, p[0], p[1]);
      x[0] = z[0]; x[1] = z[1];
      y[0] = q[0]; y[1] = q[1];
      o = (o + 128) & (PERIOD - 1);
    }
    s[0] = x; s[1] = y;
  }

  static void aesB(long[][] s, byte[] m, int o, long n) {
    long[] x = s[0].clone(), y = s[1].clone(), salt = s[2].clone(), t = new long[2];
    for (; n > 0; --n) {
      t[0] = w(m, o, false); t[1] = w(m, o + 8, false);
      enc(t, salt[0], salt[1]);
      for (int i = 16; i < 128; i += 16) dec(t, w(m, o + i, false), w(m, o + i + 8, false));
      salt[0] += P6; salt[1] += P5;
      long nx0 = x[0] + y[0], nx1 = x[1] + y[1];
      enc(x, t[0], t[1]);
      y[0] = x[0]; y[1] = x[1];
      x[0] = nx0; x[1] = nx1;
      o = (o + 128) & (PERIOD - 1);
    }
    s[0] = x; s[1] = y; s[2] = salt;
  }
}
