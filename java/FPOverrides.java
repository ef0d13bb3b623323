import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.Value;

/**
 * Evaluates the few operators of FixedPoint.tla whose intermediate products
 * leave TLC's 32-bit integers. Each computes what its TLA+ definition says.
 */
public class FPOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() { return new Class[] { FPOverrides.class }; }

    private static IntValue sat(long n) {
        return IntValue.gen((int) Math.max(-2147483647L, Math.min(2147483647L, n)));
    }

    @TLAPlusOperator(identifier = "MulDiv", module = "FixedPoint", warn = false)
    public static Value mulDiv(final IntValue a, final IntValue b, final IntValue c) {
        return sat(Math.floorDiv((long) a.val * b.val, (long) c.val));
    }

    @TLAPlusOperator(identifier = "MulDivR", module = "FixedPoint", warn = false)
    public static Value mulDivR(final IntValue a, final IntValue b, final IntValue c) {
        return sat(Math.floorDiv(2 * (long) a.val * b.val + c.val, 2 * (long) c.val));
    }

    @TLAPlusOperator(identifier = "MulMod", module = "FixedPoint", warn = false)
    public static Value mulMod(final IntValue a, final IntValue b, final IntValue m) {
        return IntValue.gen((int) Math.floorMod((long) a.val * b.val, (long) m.val));
    }

    @TLAPlusOperator(identifier = "SatAdd", module = "FixedPoint", warn = false)
    public static Value satAdd(final IntValue a, final IntValue b) {
        return sat((long) a.val + b.val);
    }
}
