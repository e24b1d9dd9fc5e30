import java.math.BigInteger;
import tlc2.value.impl.*;

/** Evaluates the operators of Text.tla. */
public class Text {
  static String s(Value v) { return ((StringValue) v).val.toString(); }
  static Value str(String x) { return new StringValue(x); }

  public static Value Chars(Value v) {
    int[] c = s(v).codePoints().toArray();
    Value[] out = new Value[c.length];
    for (int i = 0; i < c.length; i++) out[i] = str(new String(Character.toChars(c[i])));
    return new TupleValue(out);
  }
  public static Value Join(Value v) {
    StringBuilder b = new StringBuilder();
    for (Value x : ((TupleValue) v.toTuple()).elems) b.append(s(x));
    return str(b.toString());
  }
  static Value num(String t, int radix) {
    BigInteger x = new BigInteger(t.isEmpty() ? "0" : t, radix);
    return x.bitLength() > 256 ? str("") : Word256.w(x);
  }
  public static Value Dec(Value v) { return num(s(v), 10); }
  public static Value HexNum(Value v) { return num(s(v), 16); }
  public static Value Hex2(Value v) { return str(String.format("%02x", ((IntValue) v).val)); }
  public static Value Num(Value v) { return str(Integer.toString(((IntValue) v).val)); }
}
