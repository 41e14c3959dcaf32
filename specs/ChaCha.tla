------------------------------- MODULE ChaCha -------------------------------
(* RFC 8439 ChaCha20, Poly1305 and their AEAD.                               *)
EXTENDS Words, BigNat

LOCAL Quarter(s, a, b, c, d) ==
  LET a1 == WAdd(s[a], s[b])  d1 == WRotl(WXor(s[d], a1), 16)
      c1 == WAdd(s[c], d1)    b1 == WRotl(WXor(s[b], c1), 12)
      a2 == WAdd(a1, b1)      d2 == WRotl(WXor(d1, a2), 8)
      c2 == WAdd(c1, d2)      b2 == WRotl(WXor(b1, c2), 7)
  IN [s EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
LOCAL RoundPattern == << <<1,5,9,13>>, <<2,6,10,14>>, <<3,7,11,15>>, <<4,8,12,16>>,
                    <<1,6,11,16>>, <<2,7,12,13>>, <<3,8,9,14>>, <<4,5,10,15>> >>
(* ctr: 4 bytes, little-endian *)
PureChaChaBlock(key, ctr, nonce) ==
  LET b == Hex("657870616e642033322d62797465206b") \o key \o ctr \o nonce
      s0 == [i \in 1..16 |-> WordLE(Slice(b, 4 * (i - 1), 4))]
      s1 == FoldLeft(LAMBDA s, i : LET q == RoundPattern[((i - 1) % 8) + 1] IN Quarter(s, q[1], q[2], q[3], q[4]), s0, IndexSeq(80))
  IN Concat([i \in 1..16 |-> BytesLE(WAdd(s0[i], s1[i]))])
ChaChaBlock(key, ctr, nonce) == PureChaChaBlock(key, ctr, nonce)

(* the 32-bit counter `first' (4 bytes, most significant first) plus i, wrapping, little-endian *)
LOCAL CtrLE(first, i) == Rev(NFix(NAdd(first, NLeft(i)), 4))
ChaChaStream(key, first, nonce, data) ==
  LET n == (Len(data) + 63) \div 64
      ks == Concat([i \in 1..n |-> ChaChaBlock(key, CtrLE(first, i - 1), nonce)])
  IN XorBytes(data, Take(ks, Len(data)))

Poly1305Prime == Hex("03fffffffffffffffffffffffffffffffb")
PolyClamp(r) == [i \in 1..16 |-> IF i \in {4, 8, 12, 16} THEN r[i] % 16 ELSE IF i \in {5, 9, 13} THEN r[i] - (r[i] % 4) ELSE r[i]]
PurePoly1305(key, m) ==
  LET r == Rev(PolyClamp(Take(key, 16)))
      acc == FoldLeft(LAMBDA a, c : NMod(NMul(NAdd(a, Rev(Append(c, 1))), r), Poly1305Prime), << >>, Chunks(m, 16))
  IN Rev(NFix(NAdd(acc, Rev(Drop(key, 16))), 16))
Poly1305(key, m) == PurePoly1305(key, m)

LOCAL AeadTag(key, nonce, aad, ct) ==
  Poly1305(Take(ChaChaBlock(key, Zeros(4), nonce), 32), PadTo(aad, 16) \o PadTo(ct, 16) \o LE8(Len(aad)) \o LE8(Len(ct)))
PureChaChaSeal(key, nonce, aad, pt) ==
  LET ct == ChaChaStream(key, << 0, 0, 0, 1 >>, nonce, pt) IN ct \o AeadTag(key, nonce, aad, ct)
PureChaChaOpen(key, nonce, aad, sealed) ==
  IF Len(sealed) < 16 THEN << FALSE, << >> >>
  ELSE LET ct == Take(sealed, Len(sealed) - 16)
       IN IF AeadTag(key, nonce, aad, ct) = Drop(sealed, Len(sealed) - 16)
          THEN << TRUE, ChaChaStream(key, << 0, 0, 0, 1 >>, nonce, ct) >> ELSE << FALSE, << >> >>
ChaChaSeal(key, nonce, aad, pt) == PureChaChaSeal(key, nonce, aad, pt)
ChaChaOpen(key, nonce, aad, sealed) == PureChaChaOpen(key, nonce, aad, sealed)
=============================================================================
