package bp;
import tlc2.overrides.ITLCOverrides;
public final class Ovs implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] {F64Ov.class}; }
}
