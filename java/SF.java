// Arithmetic overrides for spec/SF.tla (see there for the definitions). No vocoder knowledge in here.
import tlc2.value.impl.*;
import tlc2.value.IValue;

public final class SF {
    private SF() {}
    private static final IntValue IZ = IntValue.gen(0);

    private static double d(Value v) {
        TupleValue t = (v instanceof TupleValue) ? (TupleValue) v : (TupleValue) v.toTuple();
        return Math.scalb((double) ((IntValue) t.elems[0]).val, ((IntValue) t.elems[1]).val);
    }
    private static int n(Value v) { return ((IntValue) v).val; }
    private static Value sf(double x) {
        if (x == 0.0) return new TupleValue(IZ, IZ);
        if (Double.isNaN(x) || Double.isInfinite(x))
            return new TupleValue(IntValue.gen(x < 0 ? -536870912 : 536870912), IntValue.gen(1000));
        int ex = Math.getExponent(x) - 29;
        double m = Math.rint(Math.scalb(x, -ex));
        if (Math.abs(m) >= 1073741824.0) { m /= 2; ex++; }
        return new TupleValue(IntValue.gen((int) m), IntValue.gen(ex));
    }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static TupleValue tup(Value v) { return (v instanceof TupleValue) ? (TupleValue) v : (TupleValue) v.toTuple(); }
    private static double[] vec(Value v) {
        TupleValue t = tup(v); double[] r = new double[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = d(t.elems[i]);
        return r;
    }
    private static Value vec(double[] a) {
        Value[] r = new Value[a.length];
        for (int i = 0; i < r.length; i++) r[i] = sf(a[i]);
        return new TupleValue(r);
    }
    public static Value SFNorm(Value m, Value e) { return sf(Math.scalb((double) n(m), n(e))); }
    public static Value SFInt(Value a) { return sf(n(a)); }
    public static Value SFNeg(Value a) { return sf(-d(a)); }
    public static Value SFAbs(Value a) { return sf(Math.abs(d(a))); }
    public static Value SFAdd(Value a, Value c) { return sf(d(a) + d(c)); }
    public static Value SFSub(Value a, Value c) { return sf(d(a) - d(c)); }
    public static Value SFMul(Value a, Value c) { return sf(d(a) * d(c)); }
    public static Value SFDiv(Value a, Value c) { return sf(d(a) / d(c)); }
    public static Value SFFrac(Value a, Value c) { return sf((double) n(a) / (double) n(c)); }
    public static Value SFScalb(Value a, Value k) { return sf(Math.scalb(d(a), n(k))); }
    public static Value SFLt(Value a, Value c) { return b(d(a) < d(c)); }
    public static Value SFLe(Value a, Value c) { return b(d(a) <= d(c)); }
    public static Value SFMax(Value a, Value c) { return sf(Math.max(d(a), d(c))); }
    public static Value SFMin(Value a, Value c) { return sf(Math.min(d(a), d(c))); }
    public static Value SFFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
    public static Value SFTrunc(Value a) { return IntValue.gen((int) d(a)); }
    public static Value SFSqrt(Value a) { double x = d(a); return sf(x <= 0 ? 0.0 : Math.sqrt(x)); }
    public static Value SFExp(Value a) { return sf(Math.exp(d(a))); }
    public static Value SFExp2(Value a) { return sf(Math.pow(2.0, d(a))); }
    public static Value SFLog2(Value a) { return sf(Math.log(d(a)) / Math.log(2.0)); }
    public static Value SFCos(Value a) { return sf(Math.cos(d(a))); }
    public static Value SFSin(Value a) { return sf(Math.sin(d(a))); }
    public static Value SFIsFinite(Value w) { return b(Float.isFinite(Float.intBitsToFloat(n(w)))); }
    private static double fb(Value w) {
        float f = Float.intBitsToFloat(n(w));
        if (Float.isFinite(f)) return f;
        return Math.scalb(n(w) < 0 ? -536870912.0 : 536870912.0, 900);
    }
    public static Value SFFromBits(Value w) {
        float f = Float.intBitsToFloat(n(w));
        if (!Float.isFinite(f)) return sf(n(w) < 0 ? Double.NEGATIVE_INFINITY : Double.POSITIVE_INFINITY);
        return sf(f);
    }
    private static boolean near(double x, double y, double at, double rt) {
        return Math.abs(x - y) <= at + rt * Math.max(Math.abs(x), Math.abs(y));
    }
    public static Value SFNear(Value a, Value c, Value at, Value rt) { return b(near(d(a), d(c), d(at), d(rt))); }
    public static Value SFNearAngle(Value a, Value c, Value at) {
        return b(Math.abs(Math.IEEEremainder(d(a) - d(c), 2 * Math.PI)) <= d(at));
    }
    public static Value VBits(Value ws) {
        TupleValue t = tup(ws); Value[] r = new Value[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = SFFromBits(t.elems[i]);
        return new TupleValue(r);
    }
    public static Value VFinite(Value ws) {
        TupleValue t = tup(ws);
        for (Value v : t.elems) if (!Float.isFinite(Float.intBitsToFloat(n(v)))) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    public static Value VAdd(Value a, Value c) { double[] x = vec(a), y = vec(c); for (int i = 0; i < x.length; i++) x[i] += y[i]; return vec(x); }
    public static Value VSub(Value a, Value c) { double[] x = vec(a), y = vec(c); for (int i = 0; i < x.length; i++) x[i] -= y[i]; return vec(x); }
    public static Value VMul(Value a, Value c) { double[] x = vec(a), y = vec(c); for (int i = 0; i < x.length; i++) x[i] *= y[i]; return vec(x); }
    public static Value VScale(Value s, Value a) { double k = d(s); double[] x = vec(a); for (int i = 0; i < x.length; i++) x[i] *= k; return vec(x); }
    public static Value VSum(Value a) { double s = 0; for (double x : vec(a)) s += x; return sf(s); }
    public static Value VDot(Value a, Value c) { double[] x = vec(a), y = vec(c); double s = 0; for (int i = 0; i < x.length; i++) s += x[i] * y[i]; return sf(s); }
    public static Value VOsc(Value ph, Value st, Value k0, Value nn) {
        double p = d(ph), s = d(st); int k = n(k0); double[] r = new double[n(nn)];
        for (int i = 0; i < r.length; i++) r[i] = Math.cos(p + s * (k + i));
        return vec(r);
    }
    public static Value VQuadOsc(Value ph, Value a, Value bb, Value nn) {
        double p = d(ph), u = d(a), v = d(bb); double[] r = new double[n(nn)];
        for (int i = 0; i < r.length; i++) r[i] = Math.cos(p + u * i + v * i * i);
        return vec(r);
    }
    public static Value VMaxAbs(Value a) { double m = 0; for (double x : vec(a)) m = Math.max(m, Math.abs(x)); return sf(m); }
    public static Value VNear(Value a, Value c, Value at, Value rt) {
        double[] x = vec(a), y = vec(c); double p = d(at), q = d(rt);
        if (x.length != y.length) return BoolValue.ValFalse;
        for (int i = 0; i < x.length; i++) if (!near(x[i], y[i], p, q)) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    private static Value dft(Value xs, Value k, Value N, boolean im) {
        double[] x = vec(xs); long kk = n(k), M = n(N); double s = 0;
        for (int i = 0; i < x.length; i++) {
            double a = 2 * Math.PI * (double) ((kk * i) % M) / (double) M;
            s += x[i] * (im ? -Math.sin(a) : Math.cos(a));
        }
        return sf(s);
    }
    public static Value VDftRe(Value x, Value k, Value N) { return dft(x, k, N, false); }
    public static Value VDftIm(Value x, Value k, Value N) { return dft(x, k, N, true); }
    private static Value dftAll(Value xs, Value N, boolean im) {
        double[] x = vec(xs); int M = n(N); double[] w = new double[M], r = new double[M / 2 + 1];
        for (int i = 0; i < M; i++) { double a = 2 * Math.PI * i / M; w[i] = im ? -Math.sin(a) : Math.cos(a); }
        for (int k = 0; k < r.length; k++)
            for (int i = 0; i < x.length; i++) r[k] += x[i] * w[(int) (((long) k * i) % M)];
        return vec(r);
    }
    public static Value VDftAllRe(Value x, Value N) { return dftAll(x, N, false); }
    public static Value VDftAllIm(Value x, Value N) { return dftAll(x, N, true); }
    public static Value MulMod(Value a, Value c, Value e, Value m) {
        return IntValue.gen((int) Math.floorMod((long) n(a) * (long) n(c) + (long) n(e), (long) n(m)));
    }
    public static Value AddWrap32(Value a, Value c) { return IntValue.gen(n(a) + n(c)); }
    public static Value Bit(Value a, Value k) { return IntValue.gen((n(a) >> n(k)) & 1); }
    public static Value XorI(Value a, Value c) { return IntValue.gen(n(a) ^ n(c)); }
    public static Value AndI(Value a, Value c) { return IntValue.gen(n(a) & n(c)); }
    public static Value PopI(Value a) { return IntValue.gen(Integer.bitCount(n(a))); }
}
