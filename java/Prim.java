import java.io.ByteArrayOutputStream;
import java.io.IOException;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.security.*;
import java.security.spec.*;
import java.util.Arrays;
import java.util.Locale;
import javax.crypto.Cipher;
import javax.crypto.KeyAgreement;
import javax.crypto.Mac;
import javax.crypto.spec.IvParameterSpec;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.IValue;
import tlc2.value.impl.*;

/**
 * TLC operator overrides for module Prim: the cryptographic primitives the
 * Mnemonikey specification treats as given.  They come from the JDK, i.e. from a
 * code base which shares nothing with the Go implementation under test.
 */
public class Prim {
  // ---------------------------------------------------------------- helpers
  private static byte[] bytes(final Value v) {
    final TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Prim: not a byte sequence: " + v);
    final byte[] out = new byte[t.elems.length];
    for (int i = 0; i < out.length; i++) {
      final int x = ((IntValue) t.elems[i]).val;
      if (x < 0 || x > 255) throw new RuntimeException("Prim: not a byte: " + x);
      out[i] = (byte) x;
    }
    return out;
  }

  private static final IntValue[] INTS = new IntValue[256];
  static { for (int i = 0; i < 256; i++) INTS[i] = IntValue.gen(i); }

  private static Value tuple(final byte[] b) {
    final Value[] e = new Value[b.length];
    for (int i = 0; i < b.length; i++) e[i] = INTS[b[i] & 0xff];
    return new TupleValue(e);
  }

  private static int i(final Value v) { return ((IntValue) v).val; }

  private interface Body { byte[] run() throws Exception; }
  private static Value run(final Body b) {
    try { return tuple(b.run()); } catch (Exception e) { throw new RuntimeException("Prim: " + e, e); }
  }

  // TLC may evaluate a definition many times; expensive primitives are remembered.
  private static final java.util.concurrent.ConcurrentHashMap<String, byte[]> MEMO =
      new java.util.concurrent.ConcurrentHashMap<>();
  private static Value memo(final String key, final Body b) {
    return run(() -> {
      byte[] r = MEMO.get(key);
      if (r == null) {
        r = b.run();
        if (MEMO.size() > 100000) MEMO.clear();
        MEMO.put(key, r);
      }
      return r;
    });
  }
  private static String hex(final byte[] b) {
    final char[] c = new char[2 * b.length];
    for (int i = 0; i < b.length; i++) {
      c[2 * i] = "0123456789abcdef".charAt((b[i] >> 4) & 15);
      c[2 * i + 1] = "0123456789abcdef".charAt(b[i] & 15);
    }
    return new String(c);
  }
  public static Value ToHex(final Value v) { return new StringValue(hex(bytes(v))); }
  public static Value Hex(final Value v) {
    final String s = ((StringValue) v).val.toString();
    if (s.length() % 2 != 0) throw new RuntimeException("Prim: odd hex");
    final byte[] b = new byte[s.length() / 2];
    for (int i = 0; i < b.length; i++) b[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
    return tuple(b);
  }

  // ---------------------------------------------------------------- hashes
  private static byte[] hash(final String alg, final byte[]... parts) throws Exception {
    final MessageDigest md = MessageDigest.getInstance(alg);
    for (byte[] p : parts) md.update(p);
    return md.digest();
  }

  public static Value SHA1(final Value v) { return run(() -> hash("SHA-1", bytes(v))); }
  public static Value SHA256(final Value v) { return run(() -> hash("SHA-256", bytes(v))); }
  public static Value SHA384(final Value v) { return run(() -> hash("SHA-384", bytes(v))); }
  public static Value SHA512(final Value v) { return run(() -> hash("SHA-512", bytes(v))); }

  private static byte[] hmac(final byte[] k, final byte[] m) throws Exception {
    final Mac mac = Mac.getInstance("HmacSHA256");
    mac.init(new SecretKeySpec(k.length == 0 ? new byte[64] : k, "HmacSHA256"));
    return mac.doFinal(m);
  }
  public static Value HMACSHA256(final Value k, final Value m) { return run(() -> hmac(bytes(k), bytes(m))); }

  /** OpenPGP iterated and salted S2K with SHA-256 (32 bytes of key, one hash context). */
  public static Value S2KSHA256(final Value pw, final Value salt, final Value count) {
    return memo("s2k" + hex(bytes(pw)) + "/" + hex(bytes(salt)) + "/" + i(count), () -> {
      final byte[] s = bytes(salt), p = bytes(pw);
      final byte[] unit = new byte[s.length + p.length];
      System.arraycopy(s, 0, unit, 0, s.length);
      System.arraycopy(p, 0, unit, s.length, p.length);
      final int total = Math.max(i(count), unit.length);
      // one large block holding a whole number of units, to keep the digest busy
      final int reps = Math.max(1, (1 << 16) / unit.length);
      final byte[] block = new byte[reps * unit.length];
      for (int r = 0; r < reps; r++) System.arraycopy(unit, 0, block, r * unit.length, unit.length);
      final MessageDigest md = MessageDigest.getInstance("SHA-256");
      int left = total;
      while (left >= block.length) { md.update(block); left -= block.length; }
      md.update(block, 0, left);
      return md.digest();
    });
  }

  // ---------------------------------------------------------------- ciphers
  public static Value AESEncrypt(final Value k, final Value b) {
    return run(() -> {
      final Cipher c = Cipher.getInstance("AES/ECB/NoPadding");
      c.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(bytes(k), "AES"));
      return c.doFinal(bytes(b));
    });
  }
  public static Value AESDecrypt(final Value k, final Value b) {
    return run(() -> {
      final Cipher c = Cipher.getInstance("AES/ECB/NoPadding");
      c.init(Cipher.DECRYPT_MODE, new SecretKeySpec(bytes(k), "AES"));
      return c.doFinal(bytes(b));
    });
  }
  public static Value AESCFBDecrypt(final Value k, final Value iv, final Value b) {
    return run(() -> {
      final Cipher c = Cipher.getInstance("AES/CFB/NoPadding");
      c.init(Cipher.DECRYPT_MODE, new SecretKeySpec(bytes(k), "AES"), new IvParameterSpec(bytes(iv)));
      return c.doFinal(bytes(b));
    });
  }
  public static Value AESCFBEncrypt(final Value k, final Value iv, final Value b) {
    return run(() -> {
      final Cipher c = Cipher.getInstance("AES/CFB/NoPadding");
      c.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(bytes(k), "AES"), new IvParameterSpec(bytes(iv)));
      return c.doFinal(bytes(b));
    });
  }

  // ---------------------------------------------------------------- curves
  /** A SecureRandom which hands out one fixed seed; lets the JDK expand an Ed25519 seed to a key pair. */
  private static final class Fixed extends SecureRandom {
    private final byte[] b;
    Fixed(final byte[] b) { super(new SecureRandomSpi() {
      protected void engineSetSeed(byte[] s) {}
      protected void engineNextBytes(byte[] o) {}
      protected byte[] engineGenerateSeed(int n) { return new byte[n]; }
    }, null); this.b = b; }
    public void nextBytes(final byte[] out) {
      if (out.length != b.length) throw new RuntimeException("Fixed: " + out.length);
      System.arraycopy(b, 0, out, 0, b.length);
    }
  }
  private static KeyPair ed(final byte[] seed) throws Exception {
    final KeyPairGenerator g = KeyPairGenerator.getInstance("Ed25519");
    g.initialize(NamedParameterSpec.ED25519, new Fixed(seed));
    return g.generateKeyPair();
  }
  private static byte[] edPub(final PublicKey pk) {
    final byte[] enc = pk.getEncoded();           // X.509: last 32 bytes are the point
    return Arrays.copyOfRange(enc, enc.length - 32, enc.length);
  }
  public static Value Ed25519Public(final Value seed) { return memo("edp" + hex(bytes(seed)), () -> edPub(ed(bytes(seed)).getPublic())); }
  public static Value Ed25519Sign(final Value seed, final Value msg) {
    return memo("sg" + hex(bytes(seed)) + "/" + hex(bytes(msg)), () -> {
      final Signature s = Signature.getInstance("Ed25519");
      s.initSign(ed(bytes(seed)).getPrivate());
      s.update(bytes(msg));
      return s.sign();
    });
  }
  private static final byte[] EDPREFIX = {0x30, 0x2a, 0x30, 0x05, 0x06, 0x03, 0x2b, 0x65, 0x70, 0x03, 0x21, 0x00};
  public static Value Ed25519Verify(final Value pub, final Value msg, final Value sig) {
    try {
      final byte[] p = bytes(pub);
      if (p.length != 32) return BoolValue.ValFalse;
      final byte[] enc = new byte[44];
      System.arraycopy(EDPREFIX, 0, enc, 0, 12);
      System.arraycopy(p, 0, enc, 12, 32);
      final Signature s = Signature.getInstance("Ed25519");
      s.initVerify(KeyFactory.getInstance("Ed25519").generatePublic(new X509EncodedKeySpec(enc)));
      s.update(bytes(msg));
      return s.verify(bytes(sig)) ? BoolValue.ValTrue : BoolValue.ValFalse;
    } catch (GeneralSecurityException e) {
      return BoolValue.ValFalse;
    }
  }
  /** X25519 scalar multiplication of the base point u = 9 (the JDK clamps the scalar). */
  public static Value X25519Public(final Value k) {
    return memo("xp" + hex(bytes(k)), () -> {
      final KeyFactory f = KeyFactory.getInstance("X25519");
      final PrivateKey priv = f.generatePrivate(new XECPrivateKeySpec(NamedParameterSpec.X25519, bytes(k)));
      final PublicKey base = f.generatePublic(new XECPublicKeySpec(NamedParameterSpec.X25519, BigInteger.valueOf(9)));
      final KeyAgreement ka = KeyAgreement.getInstance("X25519");
      ka.init(priv);
      ka.doPhase(base, true);
      return ka.generateSecret();
    });
  }

  // ---------------------------------------------------------------- Argon2id stand-in
  /**
   * The checks build the code under test against a stand-in for golang.org/x/crypto/argon2 which
   * replaces the 512 MB hash by an injective-in-all-arguments expansion with SHA-256 (see
   * harness/xcrypto_argon2.go.txt).  This is the same function.
   */
  public static Value Argon2idStandIn(final Value pw, final Value salt, final Value t, final Value m,
      final Value p, final Value len) {
    return run(() -> {
      final ByteArrayOutputStream in = new ByteArrayOutputStream();
      in.write("argon2id-stand-in".getBytes(StandardCharsets.US_ASCII));
      for (int x : new int[] {i(t), i(m), i(p), i(len)}) be32(in, x);
      be32(in, bytes(pw).length); in.write(bytes(pw));
      be32(in, bytes(salt).length); in.write(bytes(salt));
      final byte[] seed = hash("SHA-256", in.toByteArray());
      final ByteArrayOutputStream out = new ByteArrayOutputStream();
      for (int c = 0; out.size() < i(len); c++) {
        final ByteArrayOutputStream ctr = new ByteArrayOutputStream();
        be32(ctr, c);
        out.write(hash("SHA-256", seed, ctr.toByteArray()));
      }
      return Arrays.copyOf(out.toByteArray(), i(len));
    });
  }
  private static void be32(final ByteArrayOutputStream o, final int x) {
    o.write(x >>> 24); o.write(x >>> 16); o.write(x >>> 8); o.write(x);
  }

  // ---------------------------------------------------------------- word lists
  private static volatile Value listKey = null;
  private static volatile java.util.HashMap<String, Integer> listMap = null;
  /** 0-based position of a string in a sequence of strings, -1 if absent. */
  public static Value IndexIn(final Value list, final Value s) {
    if (listKey != list) {
      synchronized (Prim.class) {
        if (listKey != list) {
          final TupleValue t = (TupleValue) list.toTuple();
          final java.util.HashMap<String, Integer> m = new java.util.HashMap<>();
          for (int k = t.elems.length - 1; k >= 0; k--) m.put(((StringValue) t.elems[k]).val.toString(), k);
          listMap = m;
          listKey = list;
        }
      }
    }
    final Integer k = listMap.get(((StringValue) s).val.toString());
    return IntValue.gen(k == null ? -1 : k);
  }

  // ---------------------------------------------------------------- strings
  public static Value LowerCase(final Value s) {
    return new StringValue(((StringValue) s).val.toString().toLowerCase(Locale.ROOT));
  }
  public static Value StringBytes(final Value s) {
    return tuple(((StringValue) s).val.toString().getBytes(StandardCharsets.UTF_8));
  }

  // ---------------------------------------------------------------- texts (as hex strings)
  /** 0-based position of the first string of an (alphabetical) list that begins with the given bytes, -1 if none. */
  public static Value FirstWithPrefix(final Value list, final Value b) {
    final String q = new String(bytes(b), StandardCharsets.ISO_8859_1);
    final TupleValue t = (TupleValue) list.toTuple();
    for (int k = 0; k < t.elems.length; k++)
      if (((StringValue) t.elems[k]).val.toString().startsWith(q)) return IntValue.gen(k);
    return IntValue.gen(-1);
  }

  private static byte[] unhex(final Value v) {
    final String s = ((StringValue) v).val.toString();
    final byte[] b = new byte[s.length() / 2];
    for (int i = 0; i < b.length; i++) b[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
    return b;
  }
  /** Length of the UTF-8 encoded white space character that begins at b[i], 0 if there is none. */
  private static int space(final byte[] b, final int i) {
    final int x = b[i] & 0xff, n = b.length - i;
    if (x == 32 || (x >= 9 && x <= 13)) return 1;
    final int y = n > 1 ? b[i + 1] & 0xff : 0, z = n > 2 ? b[i + 2] & 0xff : 0;
    if (x == 0xc2 && (y == 0x85 || y == 0xa0)) return 2;
    if (x == 0xe1 && y == 0x9a && z == 0x80) return 3;
    if (x == 0xe2 && y == 0x80 && ((z >= 0x80 && z <= 0x8a) || z == 0xa8 || z == 0xa9 || z == 0xaf)) return 3;
    if (x == 0xe2 && y == 0x81 && z == 0x9f) return 3;
    if (x == 0xe3 && y == 0x80 && z == 0x80) return 3;
    return 0;
  }
  private static Value text(final byte[] b, final int from, final int to) {
    return new StringValue(new String(b, from, to - from, StandardCharsets.ISO_8859_1));
  }
  /** The blank-separated pieces of a text, as (Latin-1) strings. */
  public static Value Pieces(final Value v) {
    final byte[] b = unhex(v);
    final java.util.ArrayList<Value> out = new java.util.ArrayList<>();
    int i = 0;
    while (i < b.length) {
      final int s = space(b, i);
      if (s > 0) { i += s; continue; }
      final int from = i;
      while (i < b.length && space(b, i) == 0) i++;
      out.add(text(b, from, i));
    }
    return new TupleValue(out.toArray(new Value[0]));
  }
  /** A text without leading and trailing blanks, as hex. */
  public static Value Trimmed(final Value v) {
    final byte[] b = unhex(v);
    int from = 0;
    while (from < b.length && space(b, from) > 0) from += space(b, from);
    int to = from, i = from;
    while (i < b.length) {
      final int s = space(b, i);
      if (s > 0) i += s; else to = ++i;
    }
    return new StringValue(hex(Arrays.copyOfRange(b, from, to)));
  }
  /** The bytes of a text as a Latin-1 string. */
  public static Value Text(final Value v) {
    final byte[] b = unhex(v);
    return text(b, 0, b.length);
  }

  // ------------------------------------------------------------------ what a text gives away
  /** Does the text contain these bytes? Both as hex strings. */
  public static Value TextHolds(final Value text, final Value part) {
    return holds(unhex(text), unhex(part)) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  private static boolean holds(final byte[] t, final byte[] p) {
    for (int i = 0; i + p.length <= t.length; i++) {
      int j = 0;
      while (j < p.length && t[i + j] == p[j]) j++;
      if (j == p.length) return true;
    }
    return false;
  }
  /** Does the text (a hex string) show the secret (bytes) as it is, in hexadecimal with or without separators, in decimal or in base64? */
  public static Value Reveals(final Value text, final Value secret) {
    final byte[] t = unhex(text), x = bytes(secret);
    if (holds(t, x)) return BoolValue.ValTrue;
    final String all = new String(t, StandardCharsets.ISO_8859_1);
    final StringBuilder h = new StringBuilder();
    for (final byte b : x) h.append(String.format("%02x", b & 255));
    final String dec = new java.math.BigInteger(1, x).toString();
    final String b64 = java.util.Base64.getEncoder().withoutPadding().encodeToString(x);
    final String dense = all.toLowerCase(Locale.ROOT).replaceAll("(?:0x)|[^0-9a-z]", "");
    final boolean found = dense.contains(h) || (dec.length() > 20 && dense.contains(dec)) || all.contains(b64)
        || all.contains(b64.replace('+', '-').replace('/', '_'));
    return found ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
}
