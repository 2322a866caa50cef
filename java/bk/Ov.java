package bk;

import java.util.Arrays;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.ForkJoinPool;
import java.util.concurrent.RecursiveTask;
import java.util.concurrent.atomic.AtomicInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Speed-ups for TLC: Java evaluations of a few operators whose TLA+ definitions
 * stay in the specification. spec/SelfCheck.tla evaluates both on the same
 * arguments and requires the same values.
 */
public class Ov implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() {
    return new Class[] {Ov.class};
  }

  static final int[] IV32 = {0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A,
                             0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19};
  static final long[] IV64 = {
      0x6A09E667F3BCC908L, 0xBB67AE8584CAA73BL, 0x3C6EF372FE94F82BL, 0xA54FF53A5F1D36F1L,
      0x510E527FADE682D1L, 0x9B05688C2B3E6C1FL, 0x1F83D9ABFB41BD6BL, 0x5BE0CD19137E2179L};
  static final int[][] SIGMA = {
      {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
      {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
      {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
      {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
      {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
      {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
      {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
      {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10}};
  static final int[][] LANES = {{0, 4, 8, 12}, {1, 5, 9, 13}, {2, 6, 10, 14}, {3, 7, 11, 15},
                                {0, 5, 10, 15}, {1, 6, 11, 12}, {2, 7, 8, 13}, {3, 4, 9, 14}};

  static void g32(int[] v, int a, int b, int c, int d, int x, int y) {
    v[a] = v[a] + v[b] + x;
    v[d] = Integer.rotateRight(v[d] ^ v[a], 16);
    v[c] = v[c] + v[d];
    v[b] = Integer.rotateRight(v[b] ^ v[c], 12);
    v[a] = v[a] + v[b] + y;
    v[d] = Integer.rotateRight(v[d] ^ v[a], 8);
    v[c] = v[c] + v[d];
    v[b] = Integer.rotateRight(v[b] ^ v[c], 7);
  }

  static void g64(long[] v, int a, int b, int c, int d, long x, long y) {
    v[a] = v[a] + v[b] + x;
    v[d] = Long.rotateRight(v[d] ^ v[a], 32);
    v[c] = v[c] + v[d];
    v[b] = Long.rotateRight(v[b] ^ v[c], 24);
    v[a] = v[a] + v[b] + y;
    v[d] = Long.rotateRight(v[d] ^ v[a], 16);
    v[c] = v[c] + v[d];
    v[b] = Long.rotateRight(v[b] ^ v[c], 63);
  }

  /** cv (8 words), m (16 words) -> 16 words of full output. */
  static int[] compress32(int[] cv, int[] m, long off, int blen, int flags) {
    int[] v = new int[16];
    System.arraycopy(cv, 0, v, 0, 8);
    System.arraycopy(IV32, 0, v, 8, 4);
    v[12] = (int) off;
    v[13] = (int) (off >>> 32);
    v[14] = blen;
    v[15] = flags;
    for (int r = 0; r < 7; r++) {
      int[] s = SIGMA[r];
      for (int k = 0; k < 8; k++) {
        int[] l = LANES[k];
        g32(v, l[0], l[1], l[2], l[3], m[s[2 * k]], m[s[2 * k + 1]]);
      }
    }
    for (int i = 0; i < 8; i++) {
      v[i] ^= v[i + 8];
      v[i + 8] ^= cv[i];
    }
    return v;
  }

  static long[] compress64(long[] cv, long[] m, long off, long blen, long flags) {
    long[] v = new long[16];
    System.arraycopy(cv, 0, v, 0, 4);
    System.arraycopy(IV64, 4, v, 4, 4);
    System.arraycopy(IV64, 0, v, 8, 4);
    v[12] = off;
    v[13] = IV64[5];
    v[14] = blen;
    v[15] = flags;
    for (int r = 0; r < 8; r++) {
      int[] s = SIGMA[r];
      for (int k = 0; k < 8; k++) {
        int[] l = LANES[k];
        g64(v, l[0], l[1], l[2], l[3], m[s[2 * k]], m[s[2 * k + 1]]);
      }
    }
    for (int i = 0; i < 4; i++) {
      v[i] ^= v[i + 4];
      v[i + 4] ^= cv[i];
    }
    return v;
  }

  static Value[] elems(Value v) {
    return ((TupleValue) v.toTuple()).elems;
  }

  static int num(Value v) {
    return ((IntValue) v).val;
  }

  static int[] words32(Value bytes) {
    Value[] e = elems(bytes);
    int[] w = new int[e.length / 4];
    for (int i = 0; i < w.length; i++) {
      w[i] = num(e[4 * i]) | num(e[4 * i + 1]) << 8 | num(e[4 * i + 2]) << 16 | num(e[4 * i + 3]) << 24;
    }
    return w;
  }

  static long[] words64(Value bytes) {
    Value[] e = elems(bytes);
    long[] w = new long[e.length / 8];
    for (int i = 0; i < w.length; i++) {
      for (int k = 0; k < 8; k++) {
        w[i] |= ((long) num(e[8 * i + k])) << (8 * k);
      }
    }
    return w;
  }

  static long limbs(Value v) {
    Value[] e = elems(v);
    return (long) num(e[0]) | ((long) num(e[1])) << 16 | ((long) num(e[2])) << 32 | ((long) num(e[3])) << 48;
  }

  static final IntValue[] BYTE = new IntValue[256];

  static {
    for (int i = 0; i < 256; i++) {
      BYTE[i] = IntValue.gen(i);
    }
  }

  static Value bytes32(int[] w) {
    Value[] out = new Value[4 * w.length];
    for (int i = 0; i < out.length; i++) {
      out[i] = BYTE[w[i >> 2] >>> (8 * (i & 3)) & 0xff];
    }
    return new TupleValue(out);
  }

  @TLAPlusOperator(identifier = "Compress32", module = "Compression", warn = false)
  public static Value compress32(final Value cv, final Value block, final Value blen, final Value off,
                                 final Value flags) {
    return bytes32(compress32(words32(cv), words32(block), limbs(off), num(blen), num(flags)));
  }

  @TLAPlusOperator(identifier = "Compress64", module = "Compression", warn = false)
  public static Value compress64(final Value cv, final Value block, final Value blen, final Value off,
                                 final Value flags) {
    long[] w = compress64(words64(cv), words64(block), limbs(off), num(blen), num(flags));
    Value[] out = new Value[128];
    for (int i = 0; i < 128; i++) {
      out[i] = BYTE[(int) (w[i >> 3] >>> (8 * (i & 7))) & 0xff];
    }
    return new TupleValue(out);
  }

  @TLAPlusOperator(identifier = "Hex", module = "Limbs", warn = false)
  public static Value hex(final Value bytes) {
    Value[] e = elems(bytes);
    StringBuilder sb = new StringBuilder(2 * e.length);
    for (Value v : e) {
      int b = num(v);
      sb.append(Character.forDigit(b >> 4, 16)).append(Character.forDigit(b & 15, 16));
    }
    return new StringValue(sb.toString());
  }

  @TLAPlusOperator(identifier = "Unhex", module = "Limbs", warn = false)
  public static Value unhex(final Value str) {
    String s = ((StringValue) str).val.toString();
    Value[] out = new Value[s.length() / 2];
    for (int i = 0; i < out.length; i++) {
      out[i] = BYTE[Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16)];
    }
    return new TupleValue(out);
  }

  /** The byte at offset b of chunk a of a message of the given kind. */
  static int patternByte(int kind, int a, int b) {
    if (kind == 0) return 0;
    if (kind == 1) return 255;
    int sq = (b + a + kind) % 251;
    return (b * 31 + (b / 8) * 17 + a * 101 + (a / 64) * 7 + kind * 59 + sq * sq) & 255;
  }

  /** Segs: tuple of <<kind, end chunk, end byte>>. */
  static int contentByte(int[][] segs, int a, int b) {
    for (int[] s : segs) {
      if (a < s[1] || (a == s[1] && b < s[2])) return patternByte(s[0], a & 0xffff, b);
    }
    throw new IllegalArgumentException("position beyond the message");
  }

  static int[][] segs(Value v) {
    Value[] e = elems(v);
    int[][] out = new int[e.length][];
    for (int i = 0; i < e.length; i++) {
      Value[] t = elems(e[i]);
      out[i] = new int[] {num(t[0]), num(t[1]), num(t[2])};
    }
    return out;
  }

  /** n bytes of the message from byte `from` of chunk a, padded with zeros to `len` bytes. */
  @TLAPlusOperator(identifier = "ContentBytes", module = "Content", warn = false)
  public static Value contentBytes(final Value segsV, final Value a, final Value from, final Value n,
                                   final Value len) {
    int[][] s = segs(segsV);
    Value[] out = new Value[num(len)];
    int k = num(n);
    int aa = num(a);
    int f = num(from);
    for (int i = 0; i < out.length; i++) {
      out[i] = i < k ? BYTE[contentByte(s, aa, f + i)] : BYTE[0];
    }
    return new TupleValue(out);
  }

  static final ConcurrentHashMap<String, byte[]> ZEROS = new ConcurrentHashMap<>();

  static byte[] leBytes(int[] w) {
    byte[] out = new byte[32];
    for (int i = 0; i < 32; i++) out[i] = (byte) (w[i >> 2] >>> (8 * (i & 3)));
    return out;
  }

  /** The value of chunks [lo, lo + 2^level) of zeros. */
  static final class Zeros extends RecursiveTask<int[]> {
    final int[] key;
    final int mf, level;
    final long lo;

    Zeros(int[] key, int mf, long lo, int level) {
      this.key = key;
      this.mf = mf;
      this.lo = lo;
      this.level = level;
    }

    @Override
    protected int[] compute() {
      if (level == 0) {
        int[] cv = key, m = new int[16];
        for (int b = 0; b < 32; b++) {
          cv = Arrays.copyOf(compress32(cv, m, lo * 2048, 64, mf | (b == 0 ? 1 : 0) | (b == 31 ? 2 : 0)), 8);
        }
        return cv;
      }
      Zeros a = new Zeros(key, mf, lo, level - 1), b = new Zeros(key, mf, lo + (1L << (level - 1)), level - 1);
      int[] l, r;
      if (level > 8) {
        a.fork();
        r = b.compute();
        l = a.join();
      } else {
        l = a.compute();
        r = b.compute();
      }
      int[] m = Arrays.copyOf(l, 16);
      System.arraycopy(r, 0, m, 8, 8);
      return Arrays.copyOf(compress32(key, m, 0, 64, mf | 4), 8);
    }
  }

  @TLAPlusOperator(identifier = "ZeroValue", module = "Hash32", warn = false)
  public static Value zeroValue(final Value key, final Value mf, final Value lo, final Value level) {
    int[] k = words32(key);
    String id = Arrays.toString(k) + "/" + num(mf) + "/" + num(lo) + "/" + num(level);
    byte[] cv = ZEROS.get(id);
    if (cv == null) {
      cv = leBytes(ForkJoinPool.commonPool().invoke(new Zeros(k, num(mf), num(lo), num(level))));
      ZEROS.put(id, cv);
    }
    Value[] out = new Value[32];
    for (int i = 0; i < 32; i++) out[i] = BYTE[cv[i] & 255];
    return new TupleValue(out);
  }

  static final ConcurrentHashMap<String, Value> TERMS = new ConcurrentHashMap<>();
  static final AtomicInteger NEXT_TERM = new AtomicInteger();

  @TLAPlusOperator(identifier = "Intern", module = "Intern", warn = false)
  public static Value intern(final Value term) {
    return TERMS.computeIfAbsent(
        term.toString(),
        t -> new TupleValue(new Value[] {new StringValue("term"), IntValue.gen(NEXT_TERM.getAndIncrement())}));
  }
}
