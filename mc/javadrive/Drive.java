// Explores generated Java proxies and skeletons against the wire model, table driven, by reflection.
// Input: one line per method (see mc/checks/javawire.py); output: V lines for violations, DONE counts.
import com.qualcomm.qti.qms.api.mink.*;
import java.lang.reflect.*;
import java.nio.file.*;
import java.util.*;

public class Drive {
    static final class Leaf { String[] name; int[] idx; String prim; int off; }
    static final class Par {
        boolean out; String kind, prim; int elsize, arr, no; List<Leaf> leaves = new ArrayList<>();
        List<int[]> choices = new ArrayList<>();
    }
    static final class Slot { boolean bundle; int size, param; int[][] mem; }
    static final class Ref { int param, index; }
    static final class Case {
        String iface, name; int op; Par[] ps; List<List<Slot>> b = new ArrayList<>(); List<List<Ref>> o = new ArrayList<>();
    }
    static final class Obj implements IMinkObject {
        final String id; Obj(String i) { id = i; }
        public void retain() { throw new IllegalStateException("retain"); }
        public void release() { throw new IllegalStateException("release"); }
        public boolean isNull() { return false; }
        public void invoke(int m, byte[][] bi, int[] bs, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) { throw new IllegalStateException("invoke"); }
        public String toString() { return id; }
    }
    static final class Bad extends RuntimeException { Bad(String s) { super(s); } }

    static final String PKG = "com.qualcomm.qti.mink.";
    static long nruns = 0, nviol = 0, nval = 0;

    // choice: {count (elements carried), capacity (out arrays), pattern, holder}
    // holder: 0 normal, 1 null holder (out) or null argument (in), 2 holder of a value that exists already
    static void choices(Par p, boolean wide) {
        List<int[]> c = p.choices;
        int[] pats = wide ? new int[]{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11} : new int[]{0, 1, 2, 3};
        switch (p.kind) {
            case "prim": case "struct":
                for (int t : pats) c.add(new int[]{1, 1, t, 0});
                if (p.out) { c.add(new int[]{1, 1, 0, 1}); c.add(new int[]{1, 1, 0, 2}); c.add(new int[]{1, 1, 2, 2}); }
                break;
            case "array":
                if (!p.out) {
                    c.add(new int[]{3, 3, 0, 0});
                    for (int n : wide ? new int[]{0, 1, 2, 4, 7, 8, 9, 16, 31, 64} : new int[]{0, 1, 2, 8}) c.add(new int[]{n, n, 0, 0});
                    for (int t : pats) if (t != 0) c.add(new int[]{2, 2, t, 0});
                    c.add(new int[]{0, 0, 0, 1});
                } else {
                    c.add(new int[]{3, 3, 0, 0});
                    int max = wide ? 5 : 3;
                    for (int cap = 0; cap <= max; cap++) for (int n = 0; n <= cap; n++) if (cap != 3 || n != 3) c.add(new int[]{n, cap, 0, 0});
                    for (int t : pats) if (t != 0) c.add(new int[]{2, 4, t, 0});
                    c.add(new int[]{2, 3, 0, 1});
                    c.add(new int[]{2, 3, 0, 2});
                }
                break;
            case "obj":
                c.add(new int[]{1, 1, 0, 0}); c.add(new int[]{1, 1, 1, 0});
                if (p.out) { c.add(new int[]{1, 1, 0, 1}); c.add(new int[]{1, 1, 0, 2}); c.add(new int[]{1, 1, 1, 2}); }
                break;
            default: // objarr; pattern: bit mask of null elements, modulo 4
                for (int t = 0; t < 4; t++) c.add(new int[]{p.arr, p.arr, t, 0});
                if (p.out) { c.add(new int[]{p.arr, p.arr, 0, 1}); c.add(new int[]{p.arr, p.arr, 0, 2}); }
        }
    }

    static byte[] bytes(Par p, int[] c) {
        byte[] r = new byte[c[0] * p.elsize];
        for (int k = 0; k < r.length; k++) {
            int v;
            switch (c[2]) {
                case 0: v = 17 * (p.no + 1) + 31 * k + 5; break;
                case 1: v = 0xff; break;
                case 2: v = 0; break;
                case 3: v = (k & 1) == 0 ? 0x80 : 0x7f; break;
                default: v = (k % 8) == 0 ? 1 << (c[2] - 4) : (k % 8) == 7 ? 0x80 >> (c[2] - 4) : k * c[2];
            }
            r[k] = (byte) v;
        }
        return r;
    }

    static IMinkObject[] objs(Par p, int[] c, Obj[] pool) {
        IMinkObject[] r = new IMinkObject[p.kind.equals("obj") ? 1 : p.arr];
        for (int i = 0; i < r.length; i++) {
            boolean nul = p.kind.equals("obj") ? c[2] == 1 : c[2] == 1 ? i % 2 == 0 : c[2] == 2 ? i % 2 == 1 : c[2] == 3;
            r[i] = nul ? null : pool[i];
        }
        return r;
    }

    static long le(byte[] b, int off, int n) {
        long v = 0;
        for (int i = n - 1; i >= 0; i--) v = v << 8 | (b[off + i] & 0xff);
        return v;
    }

    static int width(String prim) {
        switch (prim) { case "uint8": case "int8": return 1; case "uint16": case "int16": return 2;
            case "uint32": case "int32": case "float32": return 4; default: return 8; }
    }

    // the bits of a value of any carrier, in the width of the type of the IDL
    static long bits(Object v, String prim) {
        int w = width(prim);
        long r;
        if (v instanceof Character) r = (Character) v;
        else if (v instanceof Float) { if (!prim.equals("float32")) throw new Bad("carrier float for " + prim); r = Float.floatToRawIntBits((Float) v); }
        else if (v instanceof Double) { if (!prim.equals("float64")) throw new Bad("carrier double for " + prim); r = Double.doubleToRawLongBits((Double) v); }
        else r = ((Number) v).longValue();
        return w == 8 ? r : r & ((1L << 8 * w) - 1);
    }

    static Object value(long bits, String prim, Class<?> t) {
        if (t == float.class) return Float.intBitsToFloat((int) bits);
        if (t == double.class) return Double.longBitsToDouble(bits);
        if (t == byte.class) return (byte) bits;
        if (t == char.class) return (char) bits;
        if (t == short.class) return (short) bits;
        if (t == int.class) {
            if (prim.equals("int8")) return (int) (byte) bits;
            if (prim.equals("int16")) return (int) (short) bits;
            return (int) bits;
        }
        if (t == long.class) return prim.equals("int32") ? (long) (int) bits : prim.equals("int16") ? (long) (short) bits : prim.equals("int8") ? (long) (byte) bits : bits;
        throw new Bad("no carrier for " + prim + ": " + t);
    }

    static Object make(Par p, Class<?> t, byte[] b, int off) throws Exception {
        if (p.leaves.isEmpty()) return value(le(b, off, p.elsize), p.prim, t);
        Constructor<?> k = t.getDeclaredConstructor();
        k.setAccessible(true);
        Object s = k.newInstance();
        fill(p, s, b, off);
        return s;
    }

    static void fill(Par p, Object s, byte[] b, int off) throws Exception {
        for (Leaf l : p.leaves) {
            Object o = s;
            for (int i = 0; i < l.name.length; i++) {
                Field f = o.getClass().getDeclaredField(l.name[i]);
                f.setAccessible(true);
                boolean last = i == l.name.length - 1;
                if (l.idx[i] >= 0) {
                    Object a = f.get(o);
                    if (last) { Array.set(a, l.idx[i], value(le(b, off + l.off, width(l.prim)), l.prim, a.getClass().getComponentType())); }
                    else o = Array.get(a, l.idx[i]);
                } else if (last) f.set(o, value(le(b, off + l.off, width(l.prim)), l.prim, f.getType()));
                else o = f.get(o);
            }
        }
    }

    // compares a value with its encoding
    static void same(Par p, Object v, byte[] b, int off, String what) throws Exception {
        if (v == null) throw new Bad(what + " is null");
        if (p.leaves.isEmpty()) {
            long g = bits(v, p.prim), w = le(b, off, p.elsize);
            if (g != w) throw new Bad(what + " is 0x" + Long.toHexString(g) + ", expected 0x" + Long.toHexString(w));
            return;
        }
        for (Leaf l : p.leaves) {
            Object o = v;
            StringBuilder path = new StringBuilder();
            for (int i = 0; i < l.name.length; i++) {
                Field f = o.getClass().getDeclaredField(l.name[i]);
                f.setAccessible(true);
                o = f.get(o);
                path.append('.').append(l.name[i]);
                if (l.idx[i] >= 0) { o = Array.get(o, l.idx[i]); path.append('[').append(l.idx[i]).append(']'); }
                if (o == null) throw new Bad(what + path + " is null");
            }
            long g = bits(o, l.prim), w = le(b, off + l.off, width(l.prim));
            if (g != w) throw new Bad(what + path + " is 0x" + Long.toHexString(g) + ", expected 0x" + Long.toHexString(w));
        }
    }

    static String hex(byte[] b) {
        if (b == null) return "null";
        StringBuilder s = new StringBuilder();
        for (byte x : b) s.append(String.format("%02x", x));
        return s.length() > 120 ? s.substring(0, 120) + "..." : s.toString();
    }

    static int len(Object a) { return a == null ? 0 : Array.getLength(a); }

    // ------------------------------------------------------------------ one valuation
    static final class Run {
        Case c; int[][] ch; byte[][] data; IMinkObject[][] ob; Method m;
        Object[] args; // as the caller passes them

        byte[] slot(Slot s) {
            if (!s.bundle) return data[s.param];
            byte[] r = new byte[s.size];
            for (int[] x : s.mem) System.arraycopy(data[x[0]], 0, r, x[1], x[2]);
            return r;
        }
        int slotsize(Slot s) { return s.bundle ? s.size : c.ps[s.param].kind.equals("array") ? ch[s.param][1] * c.ps[s.param].elsize : data[s.param].length; }
        boolean nullIn(Slot s) { return !s.bundle && ch[s.param][3] == 1 && !c.ps[s.param].out; }

        // arguments of the typed call
        Object[] callArgs() throws Exception {
            Class<?>[] pt = m.getParameterTypes();
            List<Object> r = new ArrayList<>();
            for (int i = 0; i < c.ps.length; i++) {
                Par p = c.ps[i];
                Class<?> t = pt[r.size()];
                int[] x = ch[i];
                switch (p.kind + (p.out ? ">" : "<")) {
                    case "prim<": case "struct<": r.add(make(p, t, data[i], 0)); break;
                    case "array<":
                        if (x[3] == 1) { r.add(null); break; }
                        Object a = Array.newInstance(t.getComponentType(), x[0]);
                        for (int k = 0; k < x[0]; k++) Array.set(a, k, make(p, t.getComponentType(), data[i], k * p.elsize));
                        r.add(a);
                        break;
                    case "obj<": r.add(ob[i][0]); break;
                    case "objarr<": r.add(ob[i].clone()); break;
                    case "prim>": case "struct>": case "obj>":
                        Object h = x[3] == 1 ? null : Array.newInstance(t.getComponentType(), 1);
                        if (x[3] == 2) Array.set(h, 0, p.kind.equals("obj") ? new Obj("stale") : make(p, t.getComponentType(), new byte[p.elsize], 0));
                        r.add(h);
                        break;
                    default: // array>, objarr>
                        Object g = x[3] == 1 ? null : Array.newInstance(t.getComponentType(), 1);
                        if (x[3] == 2) Array.set(g, 0, Array.newInstance(t.getComponentType().getComponentType(), x[1]));
                        r.add(g);
                        r.add(x[1]);
                }
            }
            if (r.size() != pt.length) throw new Bad("the method has " + pt.length + " parameters, expected " + r.size());
            return r.toArray();
        }

        void checkOutputs(Object[] args) throws Exception {
            int k = 0;
            for (int i = 0; i < c.ps.length; i++, k++) {
                Par p = c.ps[i];
                if (!p.out) continue;
                Object h = args[k];
                String w = "output p" + i;
                boolean two = p.kind.equals("array") || p.kind.equals("objarr");
                if (two) k++;
                if (h == null) continue;
                Object v = Array.get(h, 0);
                if (p.kind.equals("obj")) { if (v != ob[i][0]) throw new Bad(w + " is object " + v + ", expected " + ob[i][0]); }
                else if (p.kind.equals("objarr")) {
                    if (len(v) != p.arr) throw new Bad(w + " has " + (v == null ? "no" : "" + len(v)) + " objects, expected " + p.arr);
                    for (int j = 0; j < p.arr; j++) if (Array.get(v, j) != ob[i][j]) throw new Bad(w + "[" + j + "] is object " + Array.get(v, j) + ", expected " + ob[i][j]);
                } else if (p.kind.equals("array")) {
                    if (v == null) throw new Bad(w + " is null");
                    if (len(v) != ch[i][0]) throw new Bad(w + " has " + len(v) + " elements, expected " + ch[i][0]);
                    for (int j = 0; j < ch[i][0]; j++) same(p, Array.get(v, j), data[i], j * p.elsize, w + "[" + j + "]");
                } else same(p, v, data[i], 0, w);
            }
        }

        // what the implementation sees, and its outputs
        void impl(Object[] args) throws Exception {
            int k = 0;
            if (args == null) args = new Object[0];
            Class<?>[] pt = m.getParameterTypes();
            for (int i = 0; i < c.ps.length; i++, k++) {
                Par p = c.ps[i];
                Object v = args[k];
                String w = "argument p" + i;
                if (!p.out) {
                    if (p.kind.equals("obj")) { if (v != ob[i][0]) throw new Bad(w + " is object " + v + ", expected " + ob[i][0]); }
                    else if (p.kind.equals("objarr")) {
                        if (v == null || len(v) != p.arr) throw new Bad(w + " has " + len(v) + " objects, expected " + p.arr);
                        for (int j = 0; j < p.arr; j++) if (Array.get(v, j) != ob[i][j]) throw new Bad(w + "[" + j + "] is object " + Array.get(v, j) + ", expected " + ob[i][j]);
                    } else if (p.kind.equals("array")) {
                        if (v == null) throw new Bad(w + " is null");
                        if (len(v) != ch[i][0]) throw new Bad(w + " has " + len(v) + " elements, expected " + ch[i][0]);
                        for (int j = 0; j < ch[i][0]; j++) same(p, Array.get(v, j), data[i], j * p.elsize, w + "[" + j + "]");
                    } else same(p, v, data[i], 0, w);
                    continue;
                }
                if (v == null) throw new Bad("holder of output p" + i + " is null");
                if (len(v) != 1) throw new Bad("holder of output p" + i + " has length " + len(v));
                Class<?> et = v.getClass().getComponentType();
                boolean reuse = ch[i][2] % 2 == 0; // fill what the skeleton provides, where it does; else replace it
                switch (p.kind) {
                    case "obj": Array.set(v, 0, ob[i][0]); break;
                    case "objarr": {
                        int n = (Integer) args[++k];
                        if (n != p.arr) throw new Bad("length of output p" + i + " is " + n + ", expected " + p.arr);
                        Object a = Array.get(v, 0);
                        if (a == null || !reuse) { a = new IMinkObject[p.arr]; Array.set(v, 0, a); }
                        if (len(a) != p.arr) throw new Bad("output p" + i + " offers " + len(a) + " objects, expected " + p.arr);
                        for (int j = 0; j < p.arr; j++) Array.set(a, j, ob[i][j]);
                        break;
                    }
                    case "array": {
                        int n = (Integer) args[++k];
                        if (n != ch[i][1]) throw new Bad("capacity of output p" + i + " is " + n + ", expected " + ch[i][1]);
                        Object a = Array.newInstance(et.getComponentType(), ch[i][0]);
                        for (int j = 0; j < ch[i][0]; j++) Array.set(a, j, make(p, et.getComponentType(), data[i], j * p.elsize));
                        Array.set(v, 0, a);
                        break;
                    }
                    case "struct":
                        if (reuse && Array.get(v, 0) != null) fill(p, Array.get(v, 0), data[i], 0);
                        else Array.set(v, 0, make(p, et, data[i], 0));
                        break;
                    default: Array.set(v, 0, make(p, et, data[i], 0));
                }
            }
        }

        // the envelope as the wire model prescribes it
        void envelope(int op, byte[][] bi, int[] bs, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) {
            if (op != c.op) throw new Bad("op-code " + op + ", expected " + c.op);
            List<Slot> I = c.b.get(0), O = c.b.get(1);
            if (len(bi) != I.size()) throw new Bad(len(bi) + " input buffers, expected " + I.size());
            if (len(bs) != O.size()) throw new Bad(len(bs) + " output buffer sizes, expected " + O.size());
            if (len(bo) != O.size()) throw new Bad(len(bo) + " output buffers, expected " + O.size());
            if (len(oi) != c.o.get(0).size()) throw new Bad(len(oi) + " input objects, expected " + c.o.get(0).size());
            if (len(oo) != c.o.get(1).size()) throw new Bad(len(oo) + " output objects, expected " + c.o.get(1).size());
            for (int i = 0; i < I.size(); i++) {
                byte[] w = slot(I.get(i));
                if (bi[i] == null && nullIn(I.get(i))) continue;
                if (!Arrays.equals(bi[i], w)) throw new Bad("input buffer " + i + " is " + hex(bi[i]) + ", expected " + hex(w));
            }
            for (int i = 0; i < O.size(); i++)
                if (bs[i] != slotsize(O.get(i))) throw new Bad("size of output buffer " + i + " is " + bs[i] + ", expected " + slotsize(O.get(i)));
            for (int i = 0; i < len(oi); i++) {
                Ref r = c.o.get(0).get(i);
                if (oi[i] != ob[r.param][r.index]) throw new Bad("input object " + i + " is " + oi[i] + ", expected " + ob[r.param][r.index]);
            }
        }
    }

    static void one(Case c, int[][] ch, Class<?> I, Constructor<?> proxy, Constructor<?> skel) throws Exception {
        Run r = new Run();
        r.c = c;
        r.ch = ch;
        for (Method m : I.getMethods()) if (m.getName().equals(c.name)) r.m = m;
        if (r.m == null) throw new Bad("no method " + c.name);
        r.data = new byte[c.ps.length][];
        r.ob = new IMinkObject[c.ps.length][];
        for (int i = 0; i < c.ps.length; i++) {
            Par p = c.ps[i];
            if (p.kind.startsWith("obj")) {
                Obj[] pool = new Obj[Math.max(1, p.arr)];
                for (int j = 0; j < pool.length; j++) pool[j] = new Obj("p" + i + "." + j);
                r.ob[i] = objs(p, ch[i], pool);
            } else r.data[i] = bytes(p, ch[i]);
        }
        nval++;

        // A: the proxy alone
        for (int fail = 0; fail < 2; fail++) {
            final int err = fail == 1 ? 10 + c.op % 7 : 0;
            final int[] calls = {0};
            IMinkObject rec = new IMinkObject() {
                public void retain() { }
                public void release() { }
                public boolean isNull() { return false; }
                public void invoke(int op, byte[][] bi, int[] bs, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) throws InvokeException {
                    calls[0]++;
                    r.envelope(op, bi, bs, bo, oi, oo);
                    if (err != 0) throw new InvokeException(err);
                    for (int i = 0; i < r.c.b.get(1).size(); i++) bo[i] = r.slot(r.c.b.get(1).get(i));
                    for (int i = 0; i < len(oo); i++) { Ref q = r.c.o.get(1).get(i); oo[i] = r.ob[q.param][q.index]; }
                }
            };
            Object[] args = r.callArgs();
            nruns++;
            phase = "proxy";
            try {
                r.m.invoke(proxy.newInstance(rec), args);
                if (err != 0) throw new Bad("error " + err + " of the invocation is lost");
            } catch (InvocationTargetException e) {
                Throwable t = e.getCause();
                if (t instanceof Bad) throw (Bad) t;
                if (err == 0 || !(t instanceof IMinkObject.InvokeException) || ((IMinkObject.InvokeException) t).getError() != err)
                    throw new Bad("ends with " + t + (err == 0 ? "" : ", expected error " + err));
            }
            if (calls[0] != 1) throw new Bad("the object was invoked " + calls[0] + " times");
            if (err == 0) r.checkOutputs(args);
        }

        boolean nullIn = false;
        for (int i = 0; i < c.ps.length; i++) if (!c.ps[i].out && ch[i][3] == 1) nullIn = true;
        if (nullIn) return;
        final int[] err = {0}, hits = {0};
        Object impl = Proxy.newProxyInstance(I.getClassLoader(), new Class<?>[]{I}, (self, m, a) -> {
            if (m.getDeclaringClass() == Object.class) return m.getName().equals("hashCode") ? (Object) 1 : m.getName().equals("equals") ? (Object) (self == a[0]) : "impl";
            if (!m.getName().equals(r.c.name)) throw new Bad("method " + m.getName() + " called instead of " + r.c.name);
            hits[0]++;
            r.impl(a);
            if (err[0] != 0) throw new IMinkObject.InvokeException(err[0]);
            return null;
        });
        // B: the skeleton alone; C: both
        for (int ph = 0; ph < 4; ph++) {
            phase = ph % 2 == 0 ? "skeleton" : "proxy+skeleton";
            err[0] = ph < 2 ? 0 : 11 + c.op % 7;
            hits[0] = 0;
            nruns++;
            IMinkObject s = (IMinkObject) skel.newInstance(impl);
            List<Slot> BI = c.b.get(0), BO = c.b.get(1);
            try {
                if (ph % 2 == 0) {
                    byte[][] bi = BI.isEmpty() ? null : new byte[BI.size()][], bo = BO.isEmpty() ? null : new byte[BO.size()][];
                    int[] bs = BO.isEmpty() ? null : new int[BO.size()];
                    IMinkObject[] oi = c.o.get(0).isEmpty() ? null : new IMinkObject[c.o.get(0).size()], oo = c.o.get(1).isEmpty() ? null : new IMinkObject[c.o.get(1).size()];
                    for (int i = 0; i < BI.size(); i++) bi[i] = r.slot(BI.get(i));
                    for (int i = 0; i < BO.size(); i++) bs[i] = r.slotsize(BO.get(i));
                    for (int i = 0; i < len(oi); i++) { Ref q = c.o.get(0).get(i); oi[i] = r.ob[q.param][q.index]; }
                    s.invoke(c.op, bi, bs, bo, oi, oo);
                    if (err[0] != 0) throw new Bad("error " + err[0] + " of the implementation is lost");
                    for (int i = 0; i < BO.size(); i++)
                        if (!Arrays.equals(bo[i], r.slot(BO.get(i)))) throw new Bad("output buffer " + i + " is " + hex(bo[i]) + ", expected " + hex(r.slot(BO.get(i))));
                    for (int i = 0; i < len(oo); i++) {
                        Ref q = c.o.get(1).get(i);
                        if (oo[i] != r.ob[q.param][q.index]) throw new Bad("output object " + i + " is " + oo[i] + ", expected " + r.ob[q.param][q.index]);
                    }
                } else {
                    Object[] args = r.callArgs();
                    try {
                        r.m.invoke(proxy.newInstance(s), args);
                    } catch (InvocationTargetException e) {
                        if (e.getCause() instanceof Exception) throw (Exception) e.getCause();
                        throw e;
                    }
                    if (err[0] != 0) throw new Bad("error " + err[0] + " of the implementation is lost");
                    r.checkOutputs(args);
                }
            } catch (IMinkObject.InvokeException e) {
                if (err[0] == 0 || e.getError() != err[0]) throw new Bad("ends with error " + e.getError() + (err[0] == 0 ? "" : ", expected " + err[0]));
            } catch (UndeclaredThrowableException e) {
                throw new Bad("ends with " + e.getCause());
            }
            if (hits[0] != 1) throw new Bad("the implementation was called " + hits[0] + " times");
        }
    }

    static String phase = "";

    static void explore(Case c, boolean wide, int pairs) throws Exception {
        Class<?> I = Class.forName(PKG + c.iface), P = Class.forName(PKG + c.iface + "$Proxy"), M = Class.forName(PKG + c.iface + "$MinkObject");
        Constructor<?> pc = P.getConstructor(IMinkObject.class), mc = M.getConstructor(I);
        for (Par p : c.ps) choices(p, wide && c.ps.length < 6);
        List<int[]> vals = new ArrayList<>();
        int n = c.ps.length;
        vals.add(new int[n]);
        for (int i = 0; i < n; i++) for (int x = 1; x < c.ps[i].choices.size(); x++) { int[] v = new int[n]; v[i] = x; vals.add(v); }
        if (n <= pairs)
            for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++)
                for (int x = 1; x < c.ps[i].choices.size(); x++) for (int y = 1; y < c.ps[j].choices.size(); y++) {
                    int[] v = new int[n]; v[i] = x; v[j] = y; vals.add(v);
                }
        for (int x = 1; x < 20; x++) { // every parameter moves at once
            int[] v = new int[n];
            for (int i = 0; i < n; i++) v[i] = x % c.ps[i].choices.size();
            vals.add(v);
        }
        for (int[] v : vals) {
            int[][] ch = new int[n][];
            for (int i = 0; i < n; i++) ch[i] = c.ps[i].choices.get(v[i]);
            try {
                one(c, ch, I, pc, mc);
            } catch (Throwable t) {
                Throwable e = t instanceof InvocationTargetException && t.getCause() != null ? t.getCause() : t;
                StackTraceElement[] st = e.getStackTrace();
                nviol++;
                StringBuilder s = new StringBuilder();
                for (int[] x : ch) s.append(Arrays.toString(x).replace(" ", ""));
                System.out.println("V " + c.iface + " " + c.name + " " + phase + " choices=" + s + " :: " + (e instanceof Bad ? e.getMessage() : e.toString() + (st.length > 0 ? " at " + st[0] : "")).replace('\n', ' '));
                return; // the first failing valuation of a method is enough
            }
        }
    }

    public static void main(String[] av) throws Exception {
        boolean wide = av[1].equals("wide");
        int pairs = Integer.parseInt(av[2]);
        for (String line : Files.readAllLines(Paths.get(av[0]))) {
            Iterator<String> t = Arrays.asList(line.split(" ")).iterator();
            Case c = new Case();
            c.iface = t.next();
            c.name = t.next();
            c.op = Integer.parseInt(t.next());
            c.ps = new Par[Integer.parseInt(t.next())];
            for (int i = 0; i < c.ps.length; i++) {
                Par p = c.ps[i] = new Par();
                p.no = i;
                p.out = t.next().equals("out");
                p.kind = t.next();
                p.prim = t.next();
                p.elsize = Integer.parseInt(t.next());
                p.arr = Integer.parseInt(t.next());
                int nl = Integer.parseInt(t.next());
                for (int k = 0; k < nl; k++) {
                    String[] f = t.next().split(":");
                    Leaf l = new Leaf();
                    String[] seg = f[0].split("\\.");
                    l.name = new String[seg.length];
                    l.idx = new int[seg.length];
                    for (int s = 0; s < seg.length; s++) {
                        int b = seg[s].indexOf('[');
                        l.name[s] = b < 0 ? seg[s] : seg[s].substring(0, b);
                        l.idx[s] = b < 0 ? -1 : Integer.parseInt(seg[s].substring(b + 1, seg[s].length() - 1));
                    }
                    l.prim = f[1];
                    l.off = Integer.parseInt(f[2]);
                    p.leaves.add(l);
                }
            }
            for (int d = 0; d < 2; d++) {
                List<Slot> L = new ArrayList<>();
                int n = Integer.parseInt(t.next());
                for (int k = 0; k < n; k++) {
                    Slot s = new Slot();
                    s.bundle = t.next().equals("B");
                    if (s.bundle) {
                        s.size = Integer.parseInt(t.next());
                        s.mem = new int[Integer.parseInt(t.next())][];
                        for (int j = 0; j < s.mem.length; j++) s.mem[j] = new int[]{Integer.parseInt(t.next()), Integer.parseInt(t.next()), Integer.parseInt(t.next())};
                    } else s.param = Integer.parseInt(t.next());
                    L.add(s);
                }
                c.b.add(L);
            }
            for (int d = 0; d < 2; d++) {
                List<Ref> L = new ArrayList<>();
                int n = Integer.parseInt(t.next());
                for (int k = 0; k < n; k++) { Ref r = new Ref(); r.param = Integer.parseInt(t.next()); r.index = Integer.parseInt(t.next()); L.add(r); }
                c.o.add(L);
            }
            explore(c, wide, pairs);
        }
        System.out.println("DONE runs=" + nruns + " valuations=" + nval + " violations=" + nviol);
    }
}
