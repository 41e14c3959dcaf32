---------------------------- MODULE MC_SelfTest ----------------------------
(* The published test vectors on the definitions, and agreement of the Java   *)
(* overrides with the definitions.                                            *)
EXTENDS Long, Curve, TLC

Pat(n, seed) == [i \in 1..n |-> (i * i * 7 + i * seed + seed) % 256]
Abc == << 97, 98, 99 >>

Names == << "sha256 abc", "sha512 abc", "sha256", "sha512", "rfc5869-1", "sbox", "fips197-128", "fips197-192", "fips197-256", "aes", "gfmul", "gcm", "rfc8439-2.3.2", "chachablock", "rfc8439-2.5.2", "poly1305", "chacha", "bignat", "hex", "long hash", "long gcm", "long poly", "pattern", "p256 generator", "p256 order", "scalarmul small", "scalarmul p256" >>
Test(nm) ==
  CASE nm = "sha256 abc" -> PureSha2(4, Abc) = Hex("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")
    [] nm = "sha512 abc" -> PureSha2(8, Abc) = Hex("ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f")
    [] nm = "sha256" -> \A n \in {0, 1, 55, 56, 63, 64, 65, 119, 120, 128} : PureSha2(4, Pat(n, 3)) = Sha256(Pat(n, 3))
    [] nm = "sha512" -> \A n \in {0, 1, 111, 112, 127, 128, 129, 256} : PureSha2(8, Pat(n, 5)) = Sha512(Pat(n, 5))
    [] nm = "rfc5869-1" -> HkdfExpand(256, HkdfExtract(256, Hex("000102030405060708090a0b0c"), Rep(11, 22)), Hex("f0f1f2f3f4f5f6f7f8f9"), 42)
      = Hex("3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865")
    [] nm = "sbox" -> \A a \in 0..255 : SBox(a) = SBoxAt(a)
    [] nm = "fips197-128" -> PureAesBlock(Hex("000102030405060708090a0b0c0d0e0f"), Hex("00112233445566778899aabbccddeeff")) = Hex("69c4e0d86a7b0430d8cdb78070b4c55a")
    [] nm = "fips197-192" -> PureAesBlock(Hex("000102030405060708090a0b0c0d0e0f1011121314151617"), Hex("00112233445566778899aabbccddeeff")) = Hex("dda97ca4864cdfe06eaf70a0ec0d7191")
    [] nm = "fips197-256" -> PureAesBlock(Hex("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"), Hex("00112233445566778899aabbccddeeff")) = Hex("8ea2b7ca516745bfeafc49904b496089")
    [] nm = "aes" -> \A k \in {16, 24, 32} : \A s \in 1..4 : PureAesBlock(Pat(k, s), Pat(16, s + 9)) = AesBlock(Pat(k, s), Pat(16, s + 9))
    [] nm = "gfmul" -> \A s \in 1..6 : PureGfMul(Pat(16, s), Pat(16, 40 + s)) = GfMul(Pat(16, s), Pat(16, 40 + s))
    [] nm = "gcm" -> \A n \in {0, 1, 15, 16, 17, 33} : \A a \in {0, 5, 16, 20} :
      LET c == PureGcmSeal(Pat(16, n), Pat(12, a), Pat(a, 1), Pat(n, 2))
      IN /\ c = GcmSeal(Pat(16, n), Pat(12, a), Pat(a, 1), Pat(n, 2))
         /\ PureGcmOpen(Pat(16, n), Pat(12, a), Pat(a, 1), c) = << TRUE, Pat(n, 2) >>
         /\ GcmOpen(Pat(16, n), Pat(12, a), Pat(a, 1), c) = << TRUE, Pat(n, 2) >>
         /\ GcmOpen(Pat(16, n), Pat(12, a), Pat(a, 7), c) = PureGcmOpen(Pat(16, n), Pat(12, a), Pat(a, 7), c)
    [] nm = "rfc8439-2.3.2" -> PureChaChaBlock(IndexSeq(32), << 1, 0, 0, 0 >>, Zeros(12)) # << >>
      /\ Take(PureChaChaBlock([i \in 1..32 |-> i - 1], << 1, 0, 0, 0 >>, Hex("000000090000004a00000000")), 16) = Hex("10f1e7e4d13b5915500fdd1fa32071c4")
    [] nm = "chachablock" -> \A s \in 1..6 : PureChaChaBlock(Pat(32, s), Pat(4, s), Pat(12, s)) = ChaChaBlock(Pat(32, s), Pat(4, s), Pat(12, s))
    [] nm = "rfc8439-2.5.2" -> PurePoly1305(Hex("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b"),
      Hex("43727970746f6772617068696320466f72756d2052657365617263682047726f7570")) = Hex("a8061dc1305136c6c22b8baf0c0127a9")
    [] nm = "poly1305" -> \A n \in {0, 1, 15, 16, 17, 33} : PurePoly1305(Pat(32, n), Pat(n, 4)) = Poly1305(Pat(32, n), Pat(n, 4))
    [] nm = "chacha" -> \A n \in {0, 1, 63, 64, 65} : \A a \in {0, 5, 16} :
      LET c == PureChaChaSeal(Pat(32, n), Pat(12, a), Pat(a, 1), Pat(n, 2))
      IN /\ c = ChaChaSeal(Pat(32, n), Pat(12, a), Pat(a, 1), Pat(n, 2))
         /\ PureChaChaOpen(Pat(32, n), Pat(12, a), Pat(a, 1), c) = << TRUE, Pat(n, 2) >>
         /\ ChaChaOpen(Pat(32, n), Pat(12, a), Pat(a, 1), c) = << TRUE, Pat(n, 2) >>
         /\ ChaChaOpen(Pat(32, n), Pat(12, a + 1), Pat(a, 1), c) = PureChaChaOpen(Pat(32, n), Pat(12, a + 1), Pat(a, 1), c)
    [] nm = "bignat" -> \A n \in {0, 1, 3, 7} : \A m \in {1, 2, 4, 5} :
      LET a == Pat(n, 11)  b == Pat(m, 13)
      IN /\ PureAdd(a, b) = NAdd(a, b) /\ PureMul(a, b) = NMul(a, b) /\ PureCmp(a, b) = NCmp(a, b)
         /\ (PureCmp(a, b) # 0 => PureSub(a, b) = NSub(a, b))
         /\ PureDivMod(a, b) = NDivMod(a, b)
         /\ PurePowMod(a, << 13 >>, b) = NPowMod(a, << 13 >>, b)
    [] nm = "hex" -> \A n \in {0, 1, 9} : Hex(ToHex(Pat(n, 3))) = Pat(n, 3)
    [] nm = "long hash" -> \A n \in {0, 1, 2, 5} : \A t \in {0, 1, 55, 56, 64, 111, 112, 128, 130} : \A bits \in {256, 512} :
      LET want == HashOf(bits, Zeros(n * HashBlock(bits)) \o Pat(t, 3))
      IN PureZerosThen(bits, n, Pat(t, 3)) = want /\ ZerosThen(bits, n, Pat(t, 3)) = want
    [] nm = "long gcm" -> \A la \in {0, 1, 16, 40} : \A lc \in {0, 1, 15, 16, 17, 64} :
      LET k == Pat(16, la)  iv == Pat(12, lc)  s == Concat([i \in 1..5 |-> GcmStreamBlock(k, iv, i - 1)])
      IN GcmSeal(k, iv, Zeros(la), Take(s, lc)) = Zeros(lc) \o GcmZeroTag(k, iv, NLeft(la), NLeft(lc))
    [] nm = "long poly" -> \A la \in {0, 1, 16, 17, 40, 100, 500} : ChaChaSeal(Pat(32, la), Pat(12, la), Zeros(la), << >>) = ChaChaZeroTag(Pat(32, la), Pat(12, la), (la + 15) \div 16, NLeft(la))
    [] nm = "pattern" -> \A n \in {0, 1, 250, 251, 252, 600} : PurePattern(n, n + 5) = Pattern(n, n + 5)
    [] nm = "p256 generator" -> OnCurve(P256, P256.gx, P256.gy)
    [] nm = "p256 order" -> ScalarMul(P256, P256.n, Gen(P256)) = Inf /\ PEq(ScalarMul(P256, NSub(P256.n, << 1 >>), Gen(P256)), PNeg(P256, Gen(P256)))
    [] nm = "scalarmul small" -> LET c == [p |-> << 97 >>, a |-> << 2 >>, b |-> << 3 >>, gx |-> << 3 >>, gy |-> << 6 >>, n |-> << 5 >>, w |-> 1]
      IN \A k \in 0..12 : PEq(PureScalarMul(c, << k >>, Gen(c)), ScalarMul(c, << k >>, Gen(c)))
    [] nm = "scalarmul p256" -> PEq(PureScalarMul(P256, Pat(2, 9), Gen(P256)), ScalarMul(P256, Pat(2, 9), Gen(P256)))

VARIABLE i
Init == i = 1
Next == i < Len(Names) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Holds == IF Test(Names[i]) THEN PrintT(<< "SELFTEST ok", Names[i] >>) ELSE ~PrintT(<< "SELFTEST FAILED", Names[i] >>)
=============================================================================
