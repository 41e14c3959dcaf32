-------------------------------- MODULE Aes --------------------------------
(* FIPS 197 AES encryption and NIST SP 800-38D GCM.                          *)
EXTENDS Words

XTime(a) == LET t == 2 * a IN IF t >= 256 THEN (t - 256) ^^ 27 ELSE t
GMul(a, b) ==
  FoldLeft(LAMBDA acc, i : << IF (b \div 2^(i-1)) % 2 = 1 THEN acc[1] ^^ acc[2] ELSE acc[1], XTime(acc[2]) >>,
           << 0, a >>, IndexSeq(8))[1]
GInv(a) == IF a = 0 THEN 0 ELSE CHOOSE x \in 1..255 : GMul(a, x) = 1
Rotl8(a, n) == ((a * 2^n) % 256) + (a \div 2^(8 - n))
SBoxAt(a) == LET b == GInv(a) IN ((((b ^^ Rotl8(b, 1)) ^^ Rotl8(b, 2)) ^^ Rotl8(b, 3)) ^^ Rotl8(b, 4)) ^^ 99
(* SBoxAt of 0..255, written out because TLC would recompute it (MC_SelfTest compares) *)
SBoxTable ==
  << 99, 124, 119, 123, 242, 107, 111, 197, 48, 1, 103, 43, 254, 215, 171, 118,
     202, 130, 201, 125, 250, 89, 71, 240, 173, 212, 162, 175, 156, 164, 114, 192,
     183, 253, 147, 38, 54, 63, 247, 204, 52, 165, 229, 241, 113, 216, 49, 21,
     4, 199, 35, 195, 24, 150, 5, 154, 7, 18, 128, 226, 235, 39, 178, 117,
     9, 131, 44, 26, 27, 110, 90, 160, 82, 59, 214, 179, 41, 227, 47, 132,
     83, 209, 0, 237, 32, 252, 177, 91, 106, 203, 190, 57, 74, 76, 88, 207,
     208, 239, 170, 251, 67, 77, 51, 133, 69, 249, 2, 127, 80, 60, 159, 168,
     81, 163, 64, 143, 146, 157, 56, 245, 188, 182, 218, 33, 16, 255, 243, 210,
     205, 12, 19, 236, 95, 151, 68, 23, 196, 167, 126, 61, 100, 93, 25, 115,
     96, 129, 79, 220, 34, 42, 144, 136, 70, 238, 184, 20, 222, 94, 11, 219,
     224, 50, 58, 10, 73, 6, 36, 92, 194, 211, 172, 98, 145, 149, 228, 121,
     231, 200, 55, 109, 141, 213, 78, 169, 108, 86, 244, 234, 101, 122, 174, 8,
     186, 120, 37, 46, 28, 166, 180, 198, 232, 221, 116, 31, 75, 189, 139, 138,
     112, 62, 181, 102, 72, 3, 246, 14, 97, 53, 87, 185, 134, 193, 29, 158,
     225, 248, 152, 17, 105, 217, 142, 148, 155, 30, 135, 233, 206, 85, 40, 223,
     140, 161, 137, 13, 191, 230, 66, 104, 65, 153, 45, 15, 176, 84, 187, 22 >>
SBox(a) == SBoxTable[a + 1]

SubWord(w) == TLCEval([i \in 1..4 |-> SBox(w[i])])
Rcon(i) == FoldLeft(LAMBDA a, j : XTime(a), 1, IndexSeq(i - 1))
KeyWords(key) ==
  LET nk == Len(key) \div 4  total == 4 * (nk + 7)
      Next(w, i) ==      \* i counts from 0
        LET prev == w[i]
            t == IF i % nk = 0 THEN XorBytes(SubWord(Append(Tail(prev), prev[1])), << Rcon(i \div nk), 0, 0, 0 >>)
                 ELSE IF nk > 6 /\ i % nk = 4 THEN SubWord(prev) ELSE prev
        IN Append(w, XorBytes(w[i + 1 - nk], t))
  IN FoldLeft(Next, [i \in 1..nk |-> Slice(key, 4 * (i - 1), 4)], [i \in 1..(total - nk) |-> nk + i - 1])
RoundKeys(key) == LET w == KeyWords(key) IN [r \in 1..(Len(w) \div 4) |-> w[4*r-3] \o w[4*r-2] \o w[4*r-1] \o w[4*r]]

SubShift(s) == TLCEval([i \in 1..16 |-> SBox(s[((i - 1 + 4 * ((i - 1) % 4)) % 16) + 1])])
MixColumn(s) ==
  TLCEval([i \in 1..16 |-> LET c == 4 * ((i - 1) \div 4)  r == (i - 1) % 4
                       At(k) == s[c + ((r + k) % 4) + 1]
                   IN (((XTime(At(0)) ^^ XTime(At(1))) ^^ At(1)) ^^ At(2)) ^^ At(3)])
PureAesBlock(key, block) ==
  LET rk == RoundKeys(key)  n == Len(rk)
      mid == FoldLeft(LAMBDA s, r : XorBytes(MixColumn(SubShift(s)), rk[r]), XorBytes(block, rk[1]), [i \in 1..(n - 2) |-> i + 1])
  IN XorBytes(SubShift(mid), rk[n])
AesBlock(key, block) == PureAesBlock(key, block)

(* Multiplication in GF(2^128), GCM bit order; blocks as 8 limbs of 16 bits. *)
LOCAL Bit(w, i) == (w[(i - 1) \div 16 + 1] \div Pow2[15 - ((i - 1) % 16)]) % 2      \* i from 1, most significant first
LOCAL Shr1(w) == TLCEval([i \in 1..8 |-> (w[i] \div 2) + (IF i > 1 /\ w[i-1] % 2 = 1 THEN 32768 ELSE 0)])
PureGfMul(x, y) ==
  LET X == WordBE(x)
      Step(acc, i) ==
        LET z == IF Bit(X, i) = 1 THEN WXor(acc[1], acc[2]) ELSE acc[1]
            v == Shr1(acc[2])
        IN << z, IF acc[2][8] % 2 = 1 THEN [v EXCEPT ![1] = @ ^^ 57600] ELSE v >>
  IN BytesBE(FoldLeft(Step, << [i \in 1..8 |-> 0], WordBE(y) >>, IndexSeq(128))[1])
GfMul(x, y) == PureGfMul(x, y)

Ghash(hk, data) == FoldLeft(LAMBDA acc, b : GfMul(XorBytes(acc, b), hk), Zeros(16), Chunks(data, 16))

Ctr(key, iv12, first, data) ==
  LET n == (Len(data) + 15) \div 16
      ks == Concat([i \in 1..n |-> AesBlock(key, iv12 \o BE4(first + i - 1))])
  IN XorBytes(data, Take(ks, Len(data)))

GcmTag(key, iv12, aad, ct) ==
  LET hk == AesBlock(key, Zeros(16))
      s == Ghash(hk, PadTo(aad, 16) \o PadTo(ct, 16) \o BE8(8 * Len(aad)) \o BE8(8 * Len(ct)))
  IN XorBytes(s, AesBlock(key, iv12 \o BE4(1)))

PureGcmSeal(key, iv12, aad, pt) == LET ct == Ctr(key, iv12, 2, pt) IN ct \o GcmTag(key, iv12, aad, ct)
(* << TRUE, plaintext >> or << FALSE, << >> >> *)
PureGcmOpen(key, iv12, aad, sealed) ==
  IF Len(sealed) < 16 THEN << FALSE, << >> >>
  ELSE LET ct == Take(sealed, Len(sealed) - 16)
       IN IF GcmTag(key, iv12, aad, ct) = Drop(sealed, Len(sealed) - 16)
          THEN << TRUE, Ctr(key, iv12, 2, ct) >> ELSE << FALSE, << >> >>
GcmSeal(key, iv12, aad, pt) == PureGcmSeal(key, iv12, aad, pt)
GcmOpen(key, iv12, aad, sealed) == PureGcmOpen(key, iv12, aad, sealed)
=============================================================================
