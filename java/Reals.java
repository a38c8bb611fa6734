// TLC module override for spec/Reals.tla.
// A real number is a TLA+ string holding an IEEE double (Double.toString form,
// plus "nan", "inf", "-inf").  Vectors are sequences of reals, matrices are
// sequences of rows.  Everything economic lives in the TLA+ modules; this class
// is only the arithmetic (scalars, dot products, matrix products, LU solve).
import tlc2.value.impl.*;
import util.UniqueString;

public class Reals {

    // ---------------------------------------------------------- conversions
    static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        if (v instanceof StringValue) {
            UniqueString u = ((StringValue) v).val;
            int tok = u.getTok();
            double[] c = cache;
            if (tok < c.length) {
                double x = c[tok];
                if (x != 0.0) return x;      // 0.0: not cached (or zero)
            }
            String s = u.toString();
            double x;
            switch (s) {
                case "nan": case "NaN": x = Double.NaN; break;
                case "inf": case "Infinity": x = Double.POSITIVE_INFINITY; break;
                case "-inf": case "-Infinity": x = Double.NEGATIVE_INFINITY; break;
                default: x = Double.parseDouble(s);
            }
            remember(tok, x);
            return x;
        }
        throw new RuntimeException("Reals: not a real: " + v);
    }

    // value by token of the interned string (strings never change their token)
    static volatile double[] cache = new double[1 << 16];
    static void remember(int tok, double x) {
        double[] c = cache;
        if (tok >= c.length) {
            synchronized (Reals.class) {
                c = cache;
                if (tok >= c.length) cache = c = java.util.Arrays.copyOf(c, Math.max(2 * c.length, tok + 1));
            }
        }
        c[tok] = x;
    }
    static final Value ZERO = new StringValue(UniqueString.uniqueStringOf("0.0"));

    static Value r(double x) {
        String s;
        if (Double.isNaN(x)) s = "nan";
        else if (x == Double.POSITIVE_INFINITY) s = "inf";
        else if (x == Double.NEGATIVE_INFINITY) s = "-inf";
        else if (x == 0.0) return ZERO;
        else s = Double.toString(x);
        UniqueString u = UniqueString.uniqueStringOf(s);
        remember(u.getTok(), x);
        return new StringValue(u);
    }

    static Value[] elems(Value v) {
        Value t = (Value) v.toTuple();
        if (t == null) throw new RuntimeException("Reals: not a sequence: " + v);
        return ((TupleValue) t).elems;
    }

    static double[] vec(Value v) {
        Value[] e = elems(v);
        double[] x = new double[e.length];
        for (int i = 0; i < x.length; i++) x[i] = d(e[i]);
        return x;
    }

    static Value rv(double[] x) {
        Value[] e = new Value[x.length];
        for (int i = 0; i < x.length; i++) e[i] = r(x[i]);
        return new TupleValue(e);
    }

    static double[][] mat(Value v) {
        Value[] e = elems(v);
        double[][] m = new double[e.length][];
        for (int i = 0; i < m.length; i++) m[i] = vec(e[i]);
        return m;
    }

    static Value rm(double[][] m) {
        Value[] e = new Value[m.length];
        for (int i = 0; i < m.length; i++) e[i] = rv(m[i]);
        return new TupleValue(e);
    }

    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    // ---------------------------------------------------------- scalars
    public static Value RNum(Value a) { return r(d(a)); }
    public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
    public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
    public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
    public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
    public static Value RNeg(Value a) { return r(-d(a)); }
    public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
    public static Value RLog(Value a) { return r(Math.log(d(a))); }
    public static Value RExp(Value a) { return r(Math.exp(d(a))); }
    public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
    public static Value RLgamma(Value a) { return r(lgamma(d(a))); }
    public static Value RMax(Value a, Value c) { return r(Math.max(d(a), d(c))); }
    public static Value RMin(Value a, Value c) { return r(Math.min(d(a), d(c))); }
    public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
    public static Value RLeq(Value a, Value c) { return b(d(a) <= d(c)); }
    public static Value REq(Value a, Value c) { return b(d(a) == d(c)); }
    public static Value RIsNum(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    public static Value RIsNaN(Value a) { return b(Double.isNaN(d(a))); }

    static boolean close(double x, double y, double tol) {
        if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
        if (Double.isInfinite(x) || Double.isInfinite(y)) return x == y;
        return Math.abs(x - y) <= tol * (1 + Math.max(Math.abs(x), Math.abs(y)));
    }

    public static Value RClose(Value a, Value c, Value tol) { return b(close(d(a), d(c), d(tol))); }

    static double lgamma(double x) {
        // Lanczos, g=7
        double[] c = {0.99999999999980993, 676.5203681218851, -1259.1392167224028,
            771.32342877765313, -176.61502916214059, 12.507343278686905,
            -0.13857109526572012, 9.9843695780195716e-6, 1.5056327351493116e-7};
        if (x < 0.5) return Math.log(Math.PI / Math.abs(Math.sin(Math.PI * x))) - lgamma(1 - x);
        x -= 1;
        double a = c[0], t = x + 7.5;
        for (int i = 1; i < 9; i++) a += c[i] / (x + i);
        return 0.5 * Math.log(2 * Math.PI) + (x + 0.5) * Math.log(t) - t + Math.log(a);
    }

    // ---------------------------------------------------------- vectors
    public static Value VDot(Value a, Value c) {
        double[] x = vec(a), y = vec(c);
        chk(x.length == y.length, "VDot");
        double s = 0;
        for (int i = 0; i < x.length; i++) s += x[i] * y[i];
        return r(s);
    }
    public static Value VAdd(Value a, Value c) {
        double[] x = vec(a), y = vec(c);
        chk(x.length == y.length, "VAdd");
        for (int i = 0; i < x.length; i++) x[i] += y[i];
        return rv(x);
    }
    public static Value VSub(Value a, Value c) {
        double[] x = vec(a), y = vec(c);
        chk(x.length == y.length, "VSub");
        for (int i = 0; i < x.length; i++) x[i] -= y[i];
        return rv(x);
    }
    public static Value VScale(Value k, Value a) {
        double[] x = vec(a); double f = d(k);
        for (int i = 0; i < x.length; i++) x[i] *= f;
        return rv(x);
    }
    public static Value VSum(Value a) {
        double s = 0;
        for (double x : vec(a)) s += x;
        return r(s);
    }
    public static Value VMaxAbs(Value a) {
        double m = 0;
        for (double x : vec(a)) { if (Double.isNaN(x)) return r(x); m = Math.max(m, Math.abs(x)); }
        return r(m);
    }
    public static Value VClose(Value a, Value c, Value tol) {
        double[] x = vec(a), y = vec(c);
        if (x.length != y.length) return b(false);
        double t = d(tol);
        for (int i = 0; i < x.length; i++) if (!close(x[i], y[i], t)) return b(false);
        return b(true);
    }

    // ---------------------------------------------------------- matrices
    static void chk(boolean ok, String w) { if (!ok) throw new RuntimeException("Reals: shape mismatch in " + w); }

    static double[][] mul(double[][] A, double[][] B) {
        int n = A.length, k = B.length, m = k == 0 ? 0 : B[0].length;
        double[][] C = new double[n][m];
        for (int i = 0; i < n; i++) {
            chk(A[i].length == k, "MMul");
            for (int l = 0; l < k; l++) {
                double a = A[i][l];
                if (a != 0) for (int j = 0; j < m; j++) C[i][j] += a * B[l][j];
            }
        }
        return C;
    }

    public static Value MMul(Value a, Value c) { return rm(mul(mat(a), mat(c))); }
    public static Value MVec(Value a, Value c) {
        double[][] A = mat(a); double[] x = vec(c);
        double[] y = new double[A.length];
        for (int i = 0; i < y.length; i++) {
            chk(A[i].length == x.length, "MVec");
            for (int j = 0; j < x.length; j++) y[i] += A[i][j] * x[j];
        }
        return rv(y);
    }
    public static Value MAdd(Value a, Value c) {
        double[][] A = mat(a), B = mat(c);
        for (int i = 0; i < A.length; i++) for (int j = 0; j < A[i].length; j++) A[i][j] += B[i][j];
        return rm(A);
    }
    public static Value MSub(Value a, Value c) {
        double[][] A = mat(a), B = mat(c);
        for (int i = 0; i < A.length; i++) for (int j = 0; j < A[i].length; j++) A[i][j] -= B[i][j];
        return rm(A);
    }
    public static Value MScale(Value k, Value a) {
        double[][] A = mat(a); double f = d(k);
        for (int i = 0; i < A.length; i++) for (int j = 0; j < A[i].length; j++) A[i][j] *= f;
        return rm(A);
    }
    public static Value MT(Value a) {
        double[][] A = mat(a);
        int n = A.length, m = n == 0 ? 0 : A[0].length;
        double[][] T = new double[m][n];
        for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) T[j][i] = A[i][j];
        return rm(T);
    }
    // solve A X = B by LU with partial pivoting and one step of refinement
    public static Value MSolve(Value a, Value c) { return rm(solve(mat(a), mat(c))); }

    static double[][] solve(double[][] A0, double[][] B0) {
        int n = A0.length, m = B0[0].length;
        double[][] A = new double[n][], X = new double[n][];
        for (int i = 0; i < n; i++) { A[i] = A0[i].clone(); X[i] = B0[i].clone(); }
        for (int p = 0; p < n; p++) {
            int piv = p;
            for (int i = p + 1; i < n; i++) if (Math.abs(A[i][p]) > Math.abs(A[piv][p])) piv = i;
            double[] t = A[p]; A[p] = A[piv]; A[piv] = t;
            t = X[p]; X[p] = X[piv]; X[piv] = t;
            double q = A[p][p];
            for (int i = p + 1; i < n; i++) {
                double f = A[i][p] / q;
                if (f != 0) {
                    for (int j = p; j < n; j++) A[i][j] -= f * A[p][j];
                    for (int j = 0; j < m; j++) X[i][j] -= f * X[p][j];
                }
            }
        }
        for (int p = n - 1; p >= 0; p--) for (int j = 0; j < m; j++) {
            double s = X[p][j];
            for (int l = p + 1; l < n; l++) s -= A[p][l] * X[l][j];
            X[p][j] = s / A[p][p];
        }
        return X;
    }

    public static Value MSqrt(Value a) {           // Jacobi rotations
        double[][] A = mat(a);
        int n = A.length;
        double[][] V = new double[n][n];
        for (int i = 0; i < n; i++) V[i][i] = 1;
        for (int sweep = 0; sweep < 100; sweep++) {
            double off = 0, dia = 0;
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) off += A[i][j] * A[i][j]; else dia += A[i][i] * A[i][i];
            if (off <= 1e-34 * dia) break;
            for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
                if (A[p][q] == 0) continue;
                double th = (A[q][q] - A[p][p]) / (2 * A[p][q]);
                double t = Math.signum(th == 0 ? 1 : th) / (Math.abs(th) + Math.sqrt(th * th + 1));
                double c = 1 / Math.sqrt(t * t + 1), s = t * c;
                for (int k = 0; k < n; k++) { double x = A[k][p], y = A[k][q]; A[k][p] = c * x - s * y; A[k][q] = s * x + c * y; }
                for (int k = 0; k < n; k++) { double x = A[p][k], y = A[q][k]; A[p][k] = c * x - s * y; A[q][k] = s * x + c * y; }
                for (int k = 0; k < n; k++) { double x = V[k][p], y = V[k][q]; V[k][p] = c * x - s * y; V[k][q] = s * x + c * y; }
            }
        }
        double[][] R = new double[n][n];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++)
            R[i][j] += V[i][k] * Math.sqrt(Math.max(A[k][k], 0)) * V[j][k];
        return rm(R);
    }
    public static Value MLogDet(Value a) {
        double[][] A = mat(a);
        int n = A.length; double s = 0;
        for (int p = 0; p < n; p++) {
            int piv = p;
            for (int i = p + 1; i < n; i++) if (Math.abs(A[i][p]) > Math.abs(A[piv][p])) piv = i;
            double[] t = A[p]; A[p] = A[piv]; A[piv] = t;
            s += Math.log(Math.abs(A[p][p]));
            for (int i = p + 1; i < n; i++) {
                double f = A[i][p] / A[p][p];
                for (int j = p; j < n; j++) A[i][j] -= f * A[p][j];
            }
        }
        return r(s);
    }
    public static Value MMaxAbs(Value a) {
        double m = 0;
        for (double[] row : mat(a)) for (double x : row) { if (Double.isNaN(x)) return r(x); m = Math.max(m, Math.abs(x)); }
        return r(m);
    }
    public static Value MId(Value n) {
        int k = ((IntValue) n).val;
        double[][] m = new double[k][k];
        for (int i = 0; i < k; i++) m[i][i] = 1;
        return rm(m);
    }
    public static Value MZero(Value n, Value k) {
        return rm(new double[((IntValue) n).val][((IntValue) k).val]);
    }
    public static Value MClose(Value a, Value c, Value tol) {
        double[][] A = mat(a), B = mat(c); double t = d(tol);
        if (A.length != B.length) return b(false);
        for (int i = 0; i < A.length; i++) {
            if (A[i].length != B[i].length) return b(false);
            for (int j = 0; j < A[i].length; j++) if (!close(A[i][j], B[i][j], t)) return b(false);
        }
        return b(true);
    }
}
