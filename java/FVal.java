package bp;

import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.ValueConstants;
import tlc2.value.impl.*;

/** A real number, as an IEEE double.  The TLC value behind module F64. */
public final class FVal extends Value {
  public final double d;
  public FVal(double d) { this.d = d; }

  public byte getKind() { return ValueConstants.USERVALUE; }
  public int compareTo(Object o) {
    if (o instanceof FVal) return Double.compare(d, ((FVal) o).d);
    throw new RuntimeException("Attempted to compare the real " + d + " with the non-real " + o);
  }
  public boolean equals(Object o) {
    if (o instanceof FVal) return Double.compare(d, ((FVal) o).d) == 0;
    throw new RuntimeException("Attempted to compare the real " + d + " with the non-real " + o);
  }
  public boolean member(Value v) { throw new RuntimeException("a real has no members"); }
  public boolean isFinite() { return true; }
  public Value takeExcept(ValueExcept ex) { return ex.idx < ex.path.length ? fail() : ex.value; }
  public Value takeExcept(ValueExcept[] exs) { return fail(); }
  private Value fail() { throw new RuntimeException("EXCEPT applied to a real"); }
  public int size() { throw new RuntimeException("a real has no size"); }
  public boolean isNormalized() { return true; }
  public Value normalize() { return this; }
  public void deepNormalize() { }
  public boolean isDefined() { return true; }
  public IValue deepCopy() { return this; }
  public long fingerPrint(long fp) {
    long b = Double.doubleToLongBits(d);
    fp = FP64.Extend(fp, (byte) 77);
    fp = FP64.Extend(fp, (int) (b >> 32));
    return FP64.Extend(fp, (int) b);
  }
  public IValue permute(IMVPerm p) { return this; }
  public void write(IValueOutputStream vos) {
    throw new RuntimeException("a real cannot be spilled to disk; keep the state queue in memory");
  }
  public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    return sb.append(d);
  }
}
