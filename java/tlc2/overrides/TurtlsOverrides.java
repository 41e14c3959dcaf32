package tlc2.overrides;

import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.Arrays;
import javax.crypto.Cipher;
import javax.crypto.spec.GCMParameterSpec;
import javax.crypto.spec.IvParameterSpec;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Fast evaluation of some operators that the specification also defines in TLA+. MC_SelfTest
 * checks that both give the same results; the definitions in the modules are the authority.
 */
public class TurtlsOverrides implements ITLCOverrides {
    public Class[] get() { return new Class[] { TurtlsOverrides.class }; }

    private static final BoolValue TRUE = BoolValue.ValTrue, FALSE = BoolValue.ValFalse;
    private static final IntValue[] INTS = new IntValue[256];
    static { for (int i = 0; i < 256; i++) INTS[i] = IntValue.gen(i); }

    private static byte[] bytes(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        byte[] b = new byte[t.elems.length];
        for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) t.elems[i]).val;
        return b;
    }
    private static Value seq(byte[] b) {
        Value[] v = new Value[b.length];
        for (int i = 0; i < b.length; i++) v[i] = INTS[b[i] & 255];
        return new TupleValue(v);
    }
    private static BigInteger num(Value v) { return new BigInteger(1, bytes(v)); }
    private static Value num(BigInteger n) {
        if (n.signum() == 0) return seq(new byte[0]);
        byte[] b = n.toByteArray();
        return seq(b[0] == 0 ? Arrays.copyOfRange(b, 1, b.length) : b);
    }

    @TLAPlusOperator(identifier = "Hex", module = "Bytes", warn = false)
    public static Value hex(Value s) {
        String t = ((StringValue) s).val.toString();
        byte[] b = new byte[t.length() / 2];
        for (int i = 0; i < b.length; i++)
            b[i] = (byte) (16 * Character.digit(t.charAt(2 * i), 16) + Character.digit(t.charAt(2 * i + 1), 16));
        return seq(b);
    }

    @TLAPlusOperator(identifier = "ToHex", module = "Bytes", warn = false)
    public static Value toHex(Value v) {
        StringBuilder sb = new StringBuilder();
        for (byte b : bytes(v)) sb.append(Character.forDigit((b >> 4) & 15, 16)).append(Character.forDigit(b & 15, 16));
        return new StringValue(sb.toString());
    }

    private static final ThreadLocal<MessageDigest> S256 = ThreadLocal.withInitial(() -> md("SHA-256"));
    private static final ThreadLocal<MessageDigest> S512 = ThreadLocal.withInitial(() -> md("SHA-512"));
    private static MessageDigest md(String n) {
        try { return MessageDigest.getInstance(n); } catch (Exception e) { throw new RuntimeException(e); }
    }
    @TLAPlusOperator(identifier = "Sha256", module = "Sha2", warn = false)
    public static Value sha256(Value m) { return seq(S256.get().digest(bytes(m))); }
    @TLAPlusOperator(identifier = "Sha512", module = "Sha2", warn = false)
    public static Value sha512(Value m) { return seq(S512.get().digest(bytes(m))); }

    @TLAPlusOperator(identifier = "ZerosThen", module = "Long", warn = false)
    public static Value zerosThen(Value bits, Value n, Value tail) {
        boolean s = ((IntValue) bits).val == 256;
        MessageDigest d = md(s ? "SHA-256" : "SHA-512");
        byte[] z = new byte[1 << 20];
        for (long left = (long) ((IntValue) n).val * (s ? 64 : 128); left > 0; left -= z.length) d.update(z, 0, (int) Math.min(left, z.length));
        return seq(d.digest(bytes(tail)));
    }

    @TLAPlusOperator(identifier = "NAdd", module = "BigNat", warn = false)
    public static Value nadd(Value a, Value b) { return num(num(a).add(num(b))); }
    @TLAPlusOperator(identifier = "NSub", module = "BigNat", warn = false)
    public static Value nsub(Value a, Value b) { return num(num(a).subtract(num(b))); }
    @TLAPlusOperator(identifier = "NMul", module = "BigNat", warn = false)
    public static Value nmul(Value a, Value b) { return num(num(a).multiply(num(b))); }
    @TLAPlusOperator(identifier = "NCmp", module = "BigNat", warn = false)
    public static Value ncmp(Value a, Value b) { return IntValue.gen(num(a).compareTo(num(b)) + 1); }
    @TLAPlusOperator(identifier = "NDivMod", module = "BigNat", warn = false)
    public static Value ndivmod(Value a, Value b) {
        BigInteger[] r = num(a).divideAndRemainder(num(b));
        return new TupleValue(num(r[0]), num(r[1]));
    }
    @TLAPlusOperator(identifier = "NPowMod", module = "BigNat", warn = false)
    public static Value npowmod(Value a, Value e, Value m) { return num(num(a).modPow(num(e), num(m))); }

    private static Cipher cipher(String t, int mode, byte[] key, String alg, java.security.spec.AlgorithmParameterSpec p) throws Exception {
        Cipher c = Cipher.getInstance(t);
        if (p == null) c.init(mode, new SecretKeySpec(key, alg)); else c.init(mode, new SecretKeySpec(key, alg), p);
        return c;
    }
    @TLAPlusOperator(identifier = "AesBlock", module = "Aes", warn = false)
    public static Value aesBlock(Value key, Value block) throws Exception {
        return seq(cipher("AES/ECB/NoPadding", Cipher.ENCRYPT_MODE, bytes(key), "AES", null).doFinal(bytes(block)));
    }
    @TLAPlusOperator(identifier = "GcmSeal", module = "Aes", warn = false)
    public static Value gcmSeal(Value key, Value iv, Value aad, Value pt) throws Exception {
        Cipher c = cipher("AES/GCM/NoPadding", Cipher.ENCRYPT_MODE, bytes(key), "AES", new GCMParameterSpec(128, bytes(iv)));
        c.updateAAD(bytes(aad));
        return seq(c.doFinal(bytes(pt)));
    }
    @TLAPlusOperator(identifier = "GcmOpen", module = "Aes", warn = false)
    public static Value gcmOpen(Value key, Value iv, Value aad, Value sealed) throws Exception {
        Cipher c = cipher("AES/GCM/NoPadding", Cipher.DECRYPT_MODE, bytes(key), "AES", new GCMParameterSpec(128, bytes(iv)));
        return open(c, aad, sealed);
    }
    private static Value open(Cipher c, Value aad, Value sealed) throws Exception {
        byte[] s = bytes(sealed);
        if (s.length >= 16)
            try {
                c.updateAAD(bytes(aad));
                return new TupleValue(TRUE, seq(c.doFinal(s)));
            } catch (javax.crypto.AEADBadTagException e) { }
        return new TupleValue(FALSE, seq(new byte[0]));
    }
    @TLAPlusOperator(identifier = "ChaChaSeal", module = "ChaCha", warn = false)
    public static Value chachaSeal(Value key, Value iv, Value aad, Value pt) throws Exception {
        Cipher c = cipher("ChaCha20-Poly1305", Cipher.ENCRYPT_MODE, bytes(key), "ChaCha20", new IvParameterSpec(bytes(iv)));
        c.updateAAD(bytes(aad));
        return seq(c.doFinal(bytes(pt)));
    }
    @TLAPlusOperator(identifier = "ChaChaOpen", module = "ChaCha", warn = false)
    public static Value chachaOpen(Value key, Value iv, Value aad, Value sealed) throws Exception {
        Cipher c = cipher("ChaCha20-Poly1305", Cipher.DECRYPT_MODE, bytes(key), "ChaCha20", new IvParameterSpec(bytes(iv)));
        return open(c, aad, sealed);
    }
    private static int rl(int x, int n) { return Integer.rotateLeft(x, n); }
    private static void quarter(int[] s, int a, int b, int c, int d) {
        s[a] += s[b]; s[d] = rl(s[d] ^ s[a], 16); s[c] += s[d]; s[b] = rl(s[b] ^ s[c], 12);
        s[a] += s[b]; s[d] = rl(s[d] ^ s[a], 8); s[c] += s[d]; s[b] = rl(s[b] ^ s[c], 7);
    }
    @TLAPlusOperator(identifier = "ChaChaBlock", module = "ChaCha", warn = false)
    public static Value chachaBlock(Value key, Value ctr, Value nonce) {
        java.nio.ByteBuffer in = java.nio.ByteBuffer.allocate(64).order(java.nio.ByteOrder.LITTLE_ENDIAN);
        in.put("expand 32-byte k".getBytes()).put(bytes(key)).put(bytes(ctr)).put(bytes(nonce)).flip();
        int[] s = new int[16], w = new int[16];
        for (int i = 0; i < 16; i++) w[i] = s[i] = in.getInt();
        for (int i = 0; i < 10; i++) {
            quarter(w, 0, 4, 8, 12); quarter(w, 1, 5, 9, 13); quarter(w, 2, 6, 10, 14); quarter(w, 3, 7, 11, 15);
            quarter(w, 0, 5, 10, 15); quarter(w, 1, 6, 11, 12); quarter(w, 2, 7, 8, 13); quarter(w, 3, 4, 9, 14);
        }
        java.nio.ByteBuffer out = java.nio.ByteBuffer.allocate(64).order(java.nio.ByteOrder.LITTLE_ENDIAN);
        for (int i = 0; i < 16; i++) out.putInt(s[i] + w[i]);
        return seq(out.array());
    }
    private static byte[] fix(byte[] b, int n) {
        byte[] r = new byte[n];
        for (int i = 0; i < n && i < b.length; i++) r[n - 1 - i] = b[b.length - 1 - i];
        return r;
    }
    private static byte[] rev(byte[] b) {
        byte[] r = new byte[b.length];
        for (int i = 0; i < b.length; i++) r[i] = b[b.length - 1 - i];
        return r;
    }
    @TLAPlusOperator(identifier = "Poly1305", module = "ChaCha", warn = false)
    public static Value poly1305(Value key, Value m) {
        byte[] k = bytes(key), d = bytes(m), rb = Arrays.copyOf(k, 16);
        for (int i : new int[] { 3, 7, 11, 15 }) rb[i] &= 15;
        for (int i : new int[] { 4, 8, 12 }) rb[i] &= 252;
        BigInteger r = new BigInteger(1, rev(rb)), p = BigInteger.ONE.shiftLeft(130).subtract(BigInteger.valueOf(5)), a = BigInteger.ZERO;
        for (int i = 0; i < d.length; i += 16) {
            byte[] c = Arrays.copyOfRange(d, i, Math.min(i + 16, d.length) + 1);
            c[c.length - 1] = 1;
            a = a.add(new BigInteger(1, rev(c))).multiply(r).mod(p);
        }
        a = a.add(new BigInteger(1, rev(Arrays.copyOfRange(k, 16, 32))));
        return seq(rev(fix(a.toByteArray(), 16)));
    }
    @TLAPlusOperator(identifier = "GfMul", module = "Aes", warn = false)
    public static Value gfMul(Value x, Value y) {
        BigInteger X = num(x), V = num(y), Z = BigInteger.ZERO, R = BigInteger.valueOf(0xe1).shiftLeft(120);
        for (int i = 127; i >= 0; i--) {
            if (X.testBit(i)) Z = Z.xor(V);
            boolean low = V.testBit(0);
            V = V.shiftRight(1);
            if (low) V = V.xor(R);
        }
        return seq(fix(Z.toByteArray(), 16));
    }

    /* Curve.ScalarMul(c, k, P), in Jacobian coordinates. */
    private static Value field(Value rec, String f) {
        return (Value) ((tlc2.value.impl.RecordValue) rec.toRcd()).apply(new StringValue(f), tlc2.tool.EvalControl.Clear);
    }
    private static BigInteger[] dbl(BigInteger[] P, BigInteger p, BigInteger a) {
        BigInteger X = P[0], Y = P[1], Z = P[2];
        if (Z.signum() == 0 || Y.signum() == 0) return new BigInteger[] { BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO };
        BigInteger Y2 = Y.multiply(Y).mod(p), S = X.multiply(Y2).shiftLeft(2).mod(p), Z2 = Z.multiply(Z).mod(p);
        BigInteger M = X.multiply(X).multiply(BigInteger.valueOf(3)).add(a.multiply(Z2).mod(p).multiply(Z2)).mod(p);
        BigInteger X3 = M.multiply(M).subtract(S.shiftLeft(1)).mod(p);
        BigInteger Y3 = M.multiply(S.subtract(X3)).subtract(Y2.multiply(Y2).shiftLeft(3)).mod(p);
        return new BigInteger[] { X3, Y3, Y.multiply(Z).shiftLeft(1).mod(p) };
    }
    private static BigInteger[] addJ(BigInteger[] P, BigInteger[] Q, BigInteger p, BigInteger a) {
        if (P[2].signum() == 0) return Q;
        if (Q[2].signum() == 0) return P;
        BigInteger Z1 = P[2].multiply(P[2]).mod(p), Z2 = Q[2].multiply(Q[2]).mod(p);
        BigInteger U1 = P[0].multiply(Z2).mod(p), U2 = Q[0].multiply(Z1).mod(p);
        BigInteger S1 = P[1].multiply(Q[2]).mod(p).multiply(Z2).mod(p), S2 = Q[1].multiply(P[2]).mod(p).multiply(Z1).mod(p);
        if (U1.equals(U2)) return S1.equals(S2) ? dbl(P, p, a) : new BigInteger[] { BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO };
        BigInteger H = U2.subtract(U1).mod(p), R = S2.subtract(S1).mod(p), H2 = H.multiply(H).mod(p), H3 = H.multiply(H2).mod(p), V = U1.multiply(H2).mod(p);
        BigInteger X3 = R.multiply(R).subtract(H3).subtract(V.shiftLeft(1)).mod(p);
        return new BigInteger[] { X3, R.multiply(V.subtract(X3)).subtract(S1.multiply(H3)).mod(p), H.multiply(P[2]).mod(p).multiply(Q[2]).mod(p) };
    }
    private static final java.util.concurrent.ConcurrentHashMap<String, Value> MULS = new java.util.concurrent.ConcurrentHashMap<>();
    @TLAPlusOperator(identifier = "ScalarMul", module = "Curve", warn = false)
    public static Value scalarMul(Value c, Value k, Value P) {
        BigInteger p = num(field(c, "p")), a = num(field(c, "a")), n = num(k);
        TupleValue pt = (TupleValue) P.toTuple();
        if (pt.elems.length == 0) return P;
        BigInteger x = num(pt.elems[0]), y = num(pt.elems[1]);
        String id = p + "/" + a + "/" + n + "/" + x + "/" + y;
        Value hit = MULS.get(id);
        if (hit != null) return hit;
        BigInteger[] B = { x, y, BigInteger.ONE };
        BigInteger[] acc = { BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO };
        for (int i = n.bitLength() - 1; i >= 0; i--) {
            acc = dbl(acc, p, a);
            if (n.testBit(i)) acc = addJ(acc, B, p, a);
        }
        Value r;
        if (acc[2].signum() == 0) r = seq(new byte[0]);
        else {
            BigInteger zi = acc[2].modInverse(p), zi2 = zi.multiply(zi).mod(p);
            r = new TupleValue(num(acc[0].multiply(zi2).mod(p)), num(acc[1].multiply(zi2).mod(p).multiply(zi).mod(p)));
        }
        if (MULS.size() < 100000) MULS.put(id, r);
        return r;
    }

    @TLAPlusOperator(identifier = "Pattern", module = "Bytes", warn = false)
    public static Value pattern(Value n, Value seed) {
        int k = ((IntValue) n).val, sd = ((IntValue) seed).val;
        byte[] b = new byte[k];
        for (int i = 0; i < k; i++) b[i] = (byte) ((i % 251) * 7 + (i / 251 % 239) * 13 + sd);
        return seq(b);
    }
}
