import tlc2.value.impl.*;
import tlc2.value.*;
import tlc2.util.FP64;

/** A complex double as a TLC value. */
public class NumValue extends Value {
  public final double re, im;
  public NumValue(double re, double im) { this.re = re == 0 ? 0 : re; this.im = im == 0 ? 0 : im; }
  public byte getKind() { return USERVALUE; }
  @Override public String getKindString() { return "a number"; }
  public int compareTo(Object o) {
    if (!(o instanceof NumValue)) throw new RuntimeException("comparing number with " + o);
    NumValue v = (NumValue) o; int c = Double.compare(re, v.re); return c != 0 ? c : Double.compare(im, v.im); }
  @Override public boolean equals(Object o) {
    if (o instanceof ModelValue) return false;
    return compareTo(o) == 0; }
  public boolean member(Value v) { throw new RuntimeException("number is not a set"); }
  public boolean isFinite() { return true; }
  public Value takeExcept(ValueExcept e) { throw new RuntimeException("EXCEPT on number"); }
  public Value takeExcept(ValueExcept[] e) { throw new RuntimeException("EXCEPT on number"); }
  public int size() { throw new RuntimeException("size of number"); }
  public boolean isNormalized() { return true; }
  public Value normalize() { return this; }
  public boolean isDefined() { return true; }
  public IValue deepCopy() { return this; }
  public boolean assignable(Value v) { return v.equals(this); }
  @Override public long fingerPrint(long fp) {
    fp = FP64.Extend(fp, (byte) 77); fp = FP64.Extend(fp, Double.doubleToLongBits(re)); return FP64.Extend(fp, Double.doubleToLongBits(im)); }
  @Override public IValue permute(IMVPerm p) { return this; }
  public StringBuffer toString(StringBuffer sb, int off, boolean sw) {
    sb.append(re); if (im != 0) { sb.append(im < 0 || Double.isNaN(im) ? "" : "+").append(im).append("i"); } return sb; }
}
