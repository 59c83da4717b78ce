import java.math.BigInteger;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC override of BigInt.tla: numbers are decimal strings. Plain integer arithmetic only. */
public class BigInt {
    private static final java.util.concurrent.ConcurrentHashMap<String, BigInteger> IN = new java.util.concurrent.ConcurrentHashMap<>();
    private static BigInteger b(Value v) {
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        String s = ((StringValue) v).val.toString();
        BigInteger r = IN.get(s);
        if (r == null) { r = new BigInteger(s); if (IN.size() < 200000) IN.put(s, r); }
        return r;
    }
    private static Value s(BigInteger x) {
        if (x.signum() < 0) throw new RuntimeException("BigInt: negative result");
        return new StringValue(UniqueString.uniqueStringOf(x.toString()));
    }
    public static Value BN(Value a) { return s(b(a)); }
    public static Value BInt(Value a) { return IntValue.gen(b(a).intValueExact()); }
    public static Value BAdd(Value x, Value y) { return s(b(x).add(b(y))); }
    public static Value BSub(Value x, Value y) { return s(b(x).subtract(b(y))); }
    public static Value BMul(Value x, Value y) { return s(b(x).multiply(b(y))); }
    public static Value BDiv(Value x, Value y) { return s(b(x).divide(b(y))); }
    public static Value BMod(Value x, Value y) { return s(b(x).mod(b(y))); }
    public static Value BLt(Value x, Value y) { return b(x).compareTo(b(y)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value BLe(Value x, Value y) { return b(x).compareTo(b(y)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value BSmall(Value x) { return b(x).bitLength() <= 16 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value BAnd(Value x, Value y) { return s(b(x).and(b(y))); }
    public static Value BOr(Value x, Value y) { return s(b(x).or(b(y))); }
    public static Value BXor(Value x, Value y) { return s(b(x).xor(b(y))); }
    public static Value BBits(Value x) { return s(BigInteger.valueOf(b(x).bitLength())); }
    public static Value BPow2(Value n) { return s(BigInteger.ONE.shiftLeft(b(n).intValueExact())); }
    public static Value BPowMod(Value x, Value e, Value m) { return s(b(x).modPow(b(e), b(m))); }
}
