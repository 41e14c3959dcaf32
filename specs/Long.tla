-------------------------------- MODULE Long --------------------------------
(* Messages of gigabytes: zero bytes, for which the standards' functions can  *)
(* be evaluated without looking at every byte.  MC_SelfTest compares these    *)
(* with the general definitions on short messages.                           *)
EXTENDS Hkdf, Aes, ChaCha

(* a length, in bytes, given in units and single ones *)
Length(n, unit, more) == NAdd(NMul(NLeft(n), NLeft(unit)), NLeft(more))

(* The digest of n zero blocks followed by tail; the length field is exact. *)
PureZerosThen(bits, n, tail) ==
  LET wb == bits \div 64
      bs == BlockSize(wb)
      h == FoldLeft(LAMBDA acc, i : Compress(wb, acc, Zeros(bs)), H0(wb), IndexSeq(n))
      z == (2 * bs - ((Len(tail) + 1 + 2 * wb) % bs)) % bs
      p == tail \o << 128 >> \o Zeros(z) \o NFix(NMul(Length(n, bs, Len(tail)), << 8 >>), 2 * wb)
      e == FoldLeft(LAMBDA acc, b : Compress(wb, acc, b), h, Chunks(p, bs))
  IN Concat([i \in 1..8 |-> BytesBE(e[i])])
ZerosThen(bits, n, tail) == PureZerosThen(bits, n, tail)

(* GHASH stays zero over zero blocks, so only the block with the lengths counts. *)
GcmZeroTag(key, iv, la, lc) ==
  XorBytes(GfMul(NFix(NMul(la, << 8 >>), 8) \o NFix(NMul(lc, << 8 >>), 8), AesBlock(key, Zeros(16))), AesBlock(key, iv \o BE4(1)))
(* block i (from 0) of the key stream *)
GcmStreamBlock(key, iv, i) == AesBlock(key, iv \o BE4(i + 2))

(* Poly1305 over n zero blocks takes a to a * f[1] + f[2] (modulo the prime). *)
RECURSIVE ZeroBlocks(_, _)
ZeroBlocks(r, n) ==
  LET M(x, y) == NMod(NMul(x, y), Poly1305Prime)
      f == ZeroBlocks(r, IF n % 2 = 0 THEN n \div 2 ELSE n - 1)
  IN IF n = 0 THEN << << 1 >>, << >> >>
     ELSE IF n % 2 = 0 THEN << M(f[1], f[1]), M(f[2], NAdd(f[1], << 1 >>)) >>
     ELSE << M(f[1], r), M(NAdd(f[2], NPow2(128)), r) >>
(* the tag for n zero blocks of associated data (la bytes) and no plaintext *)
ChaChaZeroTag(key, nonce, n, la) ==
  LET k == Take(ChaChaBlock(key, Zeros(4), nonce), 32)
      r == Rev(PolyClamp(Take(k, 16)))
      last == Rev(Rev(NFix(la, 8)) \o Zeros(8) \o << 1 >>)
      acc == NMod(NMul(NAdd(ZeroBlocks(r, n)[2], last), r), Poly1305Prime)
  IN Rev(NFix(NAdd(acc, Rev(Drop(k, 16))), 16))
=============================================================================
