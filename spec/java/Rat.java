import java.math.BigInteger;
import tlc2.value.impl.*;

/** Exact Gaussian rationals for TLC: values are strings "re im den". */
public class Rat {
  private static BigInteger[] p(Value v) {
    String[] s = ((StringValue) v).val.toString().split(" ");
    return new BigInteger[] {new BigInteger(s[0]), new BigInteger(s[1]),
                             new BigInteger(s[2])};
  }
  private static Value o(BigInteger re, BigInteger im, BigInteger d) {
    if (d.signum() == 0) throw new ArithmeticException("division by zero");
    if (d.signum() < 0) { re = re.negate(); im = im.negate(); d = d.negate(); }
    BigInteger g = re.gcd(im).gcd(d);
    if (g.signum() != 0) { re = re.divide(g); im = im.divide(g); d = d.divide(g); }
    return new StringValue(re + " " + im + " " + d);
  }
  public static Value CNum(Value re, Value im, Value den) {
    return o(BigInteger.valueOf(((IntValue) re).val),
             BigInteger.valueOf(((IntValue) im).val),
             BigInteger.valueOf(((IntValue) den).val));
  }
  public static Value CAdd(Value a, Value b) {
    BigInteger[] x = p(a), y = p(b);
    return o(x[0].multiply(y[2]).add(y[0].multiply(x[2])),
             x[1].multiply(y[2]).add(y[1].multiply(x[2])), x[2].multiply(y[2]));
  }
  public static Value CSub(Value a, Value b) {
    BigInteger[] x = p(a), y = p(b);
    return o(x[0].multiply(y[2]).subtract(y[0].multiply(x[2])),
             x[1].multiply(y[2]).subtract(y[1].multiply(x[2])), x[2].multiply(y[2]));
  }
  public static Value CMul(Value a, Value b) {
    BigInteger[] x = p(a), y = p(b);
    return o(x[0].multiply(y[0]).subtract(x[1].multiply(y[1])),
             x[0].multiply(y[1]).add(x[1].multiply(y[0])), x[2].multiply(y[2]));
  }
  public static Value CDiv(Value a, Value b) {
    BigInteger[] x = p(a), y = p(b);
    BigInteger n = y[0].multiply(y[0]).add(y[1].multiply(y[1]));
    return o(x[0].multiply(y[0]).add(x[1].multiply(y[1])).multiply(y[2]),
             x[1].multiply(y[0]).subtract(x[0].multiply(y[1])).multiply(y[2]),
             x[2].multiply(n));
  }
  /** Sign of |a|^2 - |b|^2. */
  public static Value CCmp(Value a, Value b) {
    BigInteger[] x = p(a), y = p(b);
    BigInteger l = x[0].pow(2).add(x[1].pow(2)).multiply(y[2].pow(2));
    BigInteger r = y[0].pow(2).add(y[1].pow(2)).multiply(x[2].pow(2));
    return IntValue.gen(l.compareTo(r));
  }
}
