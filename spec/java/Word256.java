import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

/** Evaluates the operators of Word256.tla. */
public class Word256 {
  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;
  static final BigInteger M = ONE.shiftLeft(256), HALF = ONE.shiftLeft(255);
  static final long CAP = 1073741823L;
  static final char[] HEX = "0123456789abcdef".toCharArray();

  static String s(Value v) { return ((StringValue) v).val.toString(); }
  static int n(Value v) { return ((IntValue) v).val; }
  static BigInteger u(Value v) { return new BigInteger(s(v), 16); }
  static BigInteger g(Value v) { BigInteger x = u(v); return x.testBit(255) ? x.subtract(M) : x; }
  static Value str(String x) { return new StringValue(x); }
  static Value w(BigInteger x) {
    x = x.mod(M);
    String h = x.toString(16);
    StringBuilder b = new StringBuilder(64);
    for (int i = h.length(); i < 64; i++) b.append('0');
    return str(b.append(h).toString());
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value i(long x) { return IntValue.gen((int) Math.min(x, CAP)); }

  public static Value FromInt(Value a) { return w(BigInteger.valueOf(n(a))); }
  public static Value ToInt(Value a) {
    BigInteger x = u(a);
    return x.bitLength() > 30 ? IntValue.gen((int) CAP) : IntValue.gen(x.intValue());
  }
  public static Value IsZero(Value a) { return bool(u(a).signum() == 0); }
  public static Value ByteLen(Value a) { return IntValue.gen((u(a).bitLength() + 7) / 8); }
  public static Value Add(Value a, Value b) { return w(u(a).add(u(b))); }
  public static Value Sub(Value a, Value b) { return w(u(a).subtract(u(b))); }
  public static Value Mul(Value a, Value b) { return w(u(a).multiply(u(b))); }
  public static Value Div(Value a, Value b) { BigInteger d = u(b); return w(d.signum() == 0 ? ZERO : u(a).divide(d)); }
  public static Value SDiv(Value a, Value b) { BigInteger d = g(b); return w(d.signum() == 0 ? ZERO : g(a).divide(d)); }
  public static Value UMod(Value a, Value b) { BigInteger d = u(b); return w(d.signum() == 0 ? ZERO : u(a).mod(d)); }
  public static Value SMod(Value a, Value b) { BigInteger d = g(b); return w(d.signum() == 0 ? ZERO : g(a).remainder(d)); }
  public static Value AddMod(Value a, Value b, Value c) { BigInteger d = u(c); return w(d.signum() == 0 ? ZERO : u(a).add(u(b)).mod(d)); }
  public static Value MulMod(Value a, Value b, Value c) { BigInteger d = u(c); return w(d.signum() == 0 ? ZERO : u(a).multiply(u(b)).mod(d)); }
  public static Value Exp(Value a, Value b) { return w(u(a).modPow(u(b), M)); }
  public static Value SignExtend(Value k, Value a) {
    BigInteger kk = u(k), x = u(a);
    if (kk.compareTo(BigInteger.valueOf(31)) >= 0) return w(x);
    int bit = 8 * kk.intValue() + 7;
    BigInteger mask = ONE.shiftLeft(bit + 1).subtract(ONE);
    return w(x.testBit(bit) ? x.or(M.subtract(ONE).xor(mask)) : x.and(mask));
  }
  public static Value Lt(Value a, Value b) { return bool(u(a).compareTo(u(b)) < 0); }
  public static Value SLt(Value a, Value b) { return bool(g(a).compareTo(g(b)) < 0); }
  public static Value And(Value a, Value b) { return w(u(a).and(u(b))); }
  public static Value Or(Value a, Value b) { return w(u(a).or(u(b))); }
  public static Value Xor(Value a, Value b) { return w(u(a).xor(u(b))); }
  public static Value Not(Value a) { return w(M.subtract(ONE).subtract(u(a))); }
  public static Value ByteAt(Value i, Value a) {
    BigInteger k = u(i);
    if (k.compareTo(BigInteger.valueOf(32)) >= 0) return w(ZERO);
    int at = 2 * k.intValue();
    return w(new BigInteger(s(a).substring(at, at + 2), 16));
  }
  static boolean big(Value k) { return u(k).compareTo(BigInteger.valueOf(256)) >= 0; }
  public static Value Shl(Value k, Value a) { return w(big(k) ? ZERO : u(a).shiftLeft(u(k).intValue())); }
  public static Value Shr(Value k, Value a) { return w(big(k) ? ZERO : u(a).shiftRight(u(k).intValue())); }
  public static Value Sar(Value k, Value a) { return w(g(a).shiftRight(big(k) ? 256 : u(k).intValue())); }
  public static Value Clz(Value a) { return w(BigInteger.valueOf(256 - u(a).bitLength())); }
  public static Value Low20(Value a) { return str("000000000000000000000000" + s(a).substring(24)); }

  public static Value BLen(Value b) { return IntValue.gen(s(b).length() / 2); }
  public static Value BGet(Value b, Value i) {
    String x = s(b); int k = 2 * n(i);
    return IntValue.gen(k >= x.length() ? 0 : Character.digit(x.charAt(k), 16) * 16 + Character.digit(x.charAt(k + 1), 16));
  }
  static void zeros(StringBuilder r, int n) { for (int i = 0; i < n; i++) r.append('0'); }
  public static Value BSlice(Value b, Value o, Value len) {
    String x = s(b);
    long lo = Math.min(2L * n(o), x.length()), hi = Math.min(2L * n(o) + 2L * n(len), x.length());
    StringBuilder r = new StringBuilder(x.substring((int) lo, (int) hi));
    zeros(r, 2 * n(len) - r.length());
    return str(r.toString());
  }
  public static Value BPut(Value b, Value o, Value d) {
    String x = s(b), y = s(d); int at = 2 * n(o);
    if (y.isEmpty()) return b;
    if (at + y.length() > x.length()) throw new RuntimeException("BPut outside the byte string");
    return str(x.substring(0, at) + y + x.substring(at + y.length()));
  }
  public static Value BGrow(Value b, Value k) {
    String x = s(b);
    if (x.length() >= 2 * n(k)) return b;
    StringBuilder r = new StringBuilder(x);
    zeros(r, 2 * n(k) - x.length());
    return str(r.toString());
  }
  public static Value BitAnd(Value a, Value b) { return IntValue.gen(n(a) & n(b)); }
  public static Value XorInt(Value a, Value b) { return IntValue.gen(n(a) ^ n(b)); }
  public static Value MulCap(Value a, Value b) { return i((long) n(a) * n(b)); }
  public static Value MemCost(Value w, Value lin, Value quad) {
    long x = n(w);
    return i(n(lin) * x + x * x / n(quad));
  }

  static final ConcurrentHashMap<String, boolean[]> DESTS = new ConcurrentHashMap<>();
  public static Value IsJumpDest(Value code, Value pc) {
    String c = s(code);
    boolean[] d = DESTS.computeIfAbsent(c, k -> {
      boolean[] r = new boolean[k.length() / 2];
      for (int p = 0; p < r.length; p++) {
        int op = Integer.parseInt(k.substring(2 * p, 2 * p + 2), 16);
        if (op == 0x5b) r[p] = true;
        else if (op >= 0x60 && op <= 0x7f) p += op - 0x5f;
      }
      return r;
    });
    int p = n(pc);
    return bool(p < d.length && d[p]);
  }

  // Keccak-256
  static final long[] RC = {
    0x0000000000000001L, 0x0000000000008082L, 0x800000000000808aL, 0x8000000080008000L, 0x000000000000808bL, 0x0000000080000001L,
    0x8000000080008081L, 0x8000000000008009L, 0x000000000000008aL, 0x0000000000000088L, 0x0000000080008009L, 0x000000008000000aL,
    0x000000008000808bL, 0x800000000000008bL, 0x8000000000008089L, 0x8000000000008003L, 0x8000000000008002L, 0x8000000000000080L,
    0x000000000000800aL, 0x800000008000000aL, 0x8000000080008081L, 0x8000000000008080L, 0x0000000080000001L, 0x8000000080008008L };
  static void f(long[] a) {
    for (int round = 0; round < 24; round++) {
      long[] c = new long[5];
      for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
      for (int x = 0; x < 5; x++) {
        long d = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1);
        for (int y = 0; y < 25; y += 5) a[x + y] ^= d;
      }
      long[] b = new long[25];
      int x = 1, y = 0;
      b[0] = a[0];
      for (int t = 0; t < 24; t++) {
        int ny = (2 * x + 3 * y) % 5;
        b[y + 5 * ny] = Long.rotateLeft(a[x + 5 * y], ((t + 1) * (t + 2) / 2) % 64);
        x = y; y = ny;
      }
      for (y = 0; y < 25; y += 5)
        for (x = 0; x < 5; x++) a[x + y] = b[x + y] ^ (~b[(x + 1) % 5 + y] & b[(x + 2) % 5 + y]);
      a[0] ^= RC[round];
    }
  }
  public static Value Keccak(Value v) {
    String h = s(v);
    int len = h.length() / 2, rate = 136, blocks = len / rate + 1;
    byte[] p = new byte[blocks * rate];
    for (int k = 0; k < len; k++) p[k] = (byte) Integer.parseInt(h.substring(2 * k, 2 * k + 2), 16);
    p[len] ^= 1;
    p[p.length - 1] ^= (byte) 0x80;
    long[] a = new long[25];
    for (int b = 0; b < blocks; b++) {
      for (int k = 0; k < rate; k++) a[k / 8] ^= (p[b * rate + k] & 0xffL) << (8 * (k % 8));
      f(a);
    }
    StringBuilder r = new StringBuilder(64);
    for (int k = 0; k < 32; k++) { int x = (int) (a[k / 8] >>> (8 * (k % 8))) & 0xff; r.append(HEX[x >> 4]).append(HEX[x & 15]); }
    return str(r.toString());
  }
}
