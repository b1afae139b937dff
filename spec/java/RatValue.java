import tlc2.value.IValue;
import tlc2.value.IMVPerm;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.*;
import tlc2.util.FP64;
import java.io.IOException;

/** A TLC value holding an exact number; indistinguishable (fingerprint, serialisation) from its canonical string. */
final class RatValue extends Value {
  final Rat r; private StringValue sv;
  RatValue(Rat r) { this.r = r; }
  StringValue sv() { if (sv == null) sv = new StringValue(r.toString()); return sv; }
  @Override public byte getKind() { return STRINGVALUE; }
  @Override public int compareTo(Object o) { return r.toString().compareTo(NumOverrides.rat((Value) o).toString()); }
  @Override public boolean equals(Object o) { return o instanceof Value && r.equals(NumOverrides.rat((Value) o)); }
  @Override public boolean member(Value v) { throw new RuntimeException("number is not a set"); }
  @Override public boolean isFinite() { throw new RuntimeException("number is not a set"); }
  @Override public Value takeExcept(ValueExcept ex) { if (ex.idx < ex.path.length) throw new RuntimeException("EXCEPT on a number"); return ex.value; }
  @Override public Value takeExcept(ValueExcept[] ex) { Value r = this; for (ValueExcept e : ex) r = r.takeExcept(e); return r; }
  @Override public int size() { return 1; }
  @Override public boolean mutates() { return false; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public void write(IValueOutputStream vos) throws IOException { sv().write(vos); }
  @Override public long fingerPrint(long fp) { return sv().fingerPrint(fp); }
  @Override public IValue permute(IMVPerm p) { return this; }
  @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    sb.append('"'); if (r.fin()) { String s = r.toString(); sb.append(s.length() <= 24 ? s : Double.toString(r.toDouble())); } else sb.append(r.toString());
    return sb.append('"');
  }
}
