-------------------------------- MODULE Sha2 --------------------------------
(* FIPS 180-4 SHA-256 and SHA-512.                                          *)
EXTENDS Words

K256 == [i \in 1..64 |-> WordBE(Slice(Hex(
  "428a2f9871374491b5c0fbcfe9b5dba53956c25b59f111f1923f82a4ab1c5ed5d807aa9812835b01243185be550c7dc372be5d7480deb1fe9bdc06a7c19bf174" \o
  "e49b69c1efbe47860fc19dc6240ca1cc2de92c6f4a7484aa5cb0a9dc76f988da983e5152a831c66db00327c8bf597fc7c6e00bf3d5a7914706ca635114292967" \o
  "27b70a852e1b21384d2c6dfc53380d13650a7354766a0abb81c2c92e92722c85a2bfe8a1a81a664bc24b8b70c76c51a3d192e819d6990624f40e3585106aa070" \o
  "19a4c1161e376c082748774c34b0bcb5391c0cb34ed8aa4a5b9cca4f682e6ff3748f82ee78a5636f84c878148cc7020890befffaa4506cebbef9a3f7c67178f2"),
  4 * (i - 1), 4))]
H256 == [i \in 1..8 |-> WordBE(Slice(Hex("6a09e667bb67ae853c6ef372a54ff53a510e527f9b05688c1f83d9ab5be0cd19"), 4 * (i - 1), 4))]

K512 == [i \in 1..80 |-> WordBE(Slice(Hex(
  "428a2f98d728ae227137449123ef65cdb5c0fbcfec4d3b2fe9b5dba58189dbbc3956c25bf348b53859f111f1b605d019923f82a4af194f9bab1c5ed5da6d8118" \o
  "d807aa98a303024212835b0145706fbe243185be4ee4b28c550c7dc3d5ffb4e272be5d74f27b896f80deb1fe3b1696b19bdc06a725c71235c19bf174cf692694" \o
  "e49b69c19ef14ad2efbe4786384f25e30fc19dc68b8cd5b5240ca1cc77ac9c652de92c6f592b02754a7484aa6ea6e4835cb0a9dcbd41fbd476f988da831153b5" \o
  "983e5152ee66dfaba831c66d2db43210b00327c898fb213fbf597fc7beef0ee4c6e00bf33da88fc2d5a79147930aa72506ca6351e003826f142929670a0e6e70" \o
  "27b70a8546d22ffc2e1b21385c26c9264d2c6dfc5ac42aed53380d139d95b3df650a73548baf63de766a0abb3c77b2a881c2c92e47edaee692722c851482353b" \o
  "a2bfe8a14cf10364a81a664bbc423001c24b8b70d0f89791c76c51a30654be30d192e819d6ef5218d69906245565a910f40e35855771202a106aa07032bbd1b8" \o
  "19a4c116b8d2d0c81e376c085141ab532748774cdf8eeb9934b0bcb5e19b48a8391c0cb3c5c95a634ed8aa4ae3418acb5b9cca4f7763e373682e6ff3d6b2b8a3" \o
  "748f82ee5defb2fc78a5636f43172f6084c87814a1f0ab728cc702081a6439ec90befffa23631e28a4506cebde82bde9bef9a3f7b2c67915c67178f2e372532b" \o
  "ca273eceea26619cd186b8c721c0c207eada7dd6cde0eb1ef57d4f7fee6ed17806f067aa72176fba0a637dc5a2c898a6113f9804bef90dae1b710b35131c471b" \o
  "28db77f523047d8432caab7b40c724933c9ebe0a15c9bebc431d67c49c100d4c4cc5d4becb3e42b6597f299cfc657e2a5fcb6fab3ad6faec6c44198c4a475817"),
  8 * (i - 1), 8))]
H512 == [i \in 1..8 |-> WordBE(Slice(Hex(
  "6a09e667f3bcc908bb67ae8584caa73b3c6ef372fe94f82ba54ff53a5f1d36f1510e527fade682d19b05688c2b3e6c1f1f83d9abfb41bd6b5be0cd19137e2179"),
  8 * (i - 1), 8))]

(* wb: word size in bytes (4 or 8) *)
BlockSize(wb) == 16 * wb
Rounds(wb)  == IF wb = 4 THEN 64 ELSE 80
KC(wb)      == IF wb = 4 THEN K256 ELSE K512
H0(wb)      == IF wb = 4 THEN H256 ELSE H512
Rot3(wb, x, a, b, c)  == WXor(WXor(WRotr(x, a), WRotr(x, b)), WRotr(x, c))
Rot2S(wb, x, a, b, c) == WXor(WXor(WRotr(x, a), WRotr(x, b)), WShr(x, c))
BSig0(wb, x) == IF wb = 4 THEN Rot3(wb, x, 2, 13, 22) ELSE Rot3(wb, x, 28, 34, 39)
BSig1(wb, x) == IF wb = 4 THEN Rot3(wb, x, 6, 11, 25) ELSE Rot3(wb, x, 14, 18, 41)
SSig0(wb, x) == IF wb = 4 THEN Rot2S(wb, x, 7, 18, 3) ELSE Rot2S(wb, x, 1, 8, 7)
SSig1(wb, x) == IF wb = 4 THEN Rot2S(wb, x, 17, 19, 10) ELSE Rot2S(wb, x, 19, 61, 6)
Ch(x, y, z)  == WXor(WAnd(x, y), WAnd(WNot(x), z))
Maj(x, y, z) == WXor(WXor(WAnd(x, y), WAnd(x, z)), WAnd(y, z))

Schedule(wb, block) ==
  FoldLeft(LAMBDA w, t : Append(w, WAdd(WAdd(SSig1(wb, w[t - 2]), w[t - 7]), WAdd(SSig0(wb, w[t - 15]), w[t - 16]))),
           [i \in 1..16 |-> WordBE(Slice(block, wb * (i - 1), wb))],
           [i \in 1..(Rounds(wb) - 16) |-> i + 16])

(* One application of the compression function to the chaining value h. *)
Compress(wb, h, block) ==
  LET w == Schedule(wb, block)
      Step(v, t) ==
        LET t1 == WAdd(WAdd(WAdd(v[8], BSig1(wb, v[5])), WAdd(Ch(v[5], v[6], v[7]), KC(wb)[t])), w[t])
            t2 == WAdd(BSig0(wb, v[1]), Maj(v[1], v[2], v[3]))
        IN << WAdd(t1, t2), v[1], v[2], v[3], WAdd(v[4], t1), v[5], v[6], v[7] >>
      out == FoldLeft(Step, h, IndexSeq(Rounds(wb)))
  IN TLCEval([i \in 1..8 |-> WAdd(h[i], out[i])])

(* 1 0* and the length in bits; messages here are far below 2^28 bytes. *)
Padding(wb, n) ==
  LET bs == BlockSize(wb)  lenf == 2 * wb
      z == (2 * bs - ((n + 1 + lenf) % bs)) % bs
  IN << 128 >> \o Zeros(z) \o Zeros(lenf - 4) \o BE4(8 * n)

PureSha2(wb, m) ==
  LET p == m \o Padding(wb, Len(m))
      h == FoldLeft(LAMBDA acc, b : Compress(wb, acc, b), H0(wb), Chunks(p, BlockSize(wb)))
  IN Concat([i \in 1..8 |-> BytesBE(h[i])])

(* These two may be evaluated by a Java override; MC_SelfTest checks that the *)
(* override and the definition agree.                                         *)
Sha256(m) == PureSha2(4, m)
Sha512(m) == PureSha2(8, m)
=============================================================================
