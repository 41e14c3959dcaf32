------------------------------- MODULE Curve -------------------------------
(* Short Weierstrass curves y^2 = x^3 + a x + b over a prime field, affine    *)
(* coordinates; numbers as in BigNat.  A curve is a record                    *)
(*   [p, a, b, gx, gy, n, w]  (w: width of a coordinate in bytes).            *)
(* The point at infinity is the empty sequence, other points are << x, y >>.  *)
EXTENDS BigNat

Inf == << >>
FAdd(c, x, y) == NMod(NAdd(x, y), c.p)
FSub(c, x, y) == NMod(NSub(NAdd(x, c.p), NMod(y, c.p)), c.p)
FMul(c, x, y) == NMod(NMul(x, y), c.p)
FInv(c, x)    == NInvMod(x, c.p)
OnCurve(c, x, y) ==
  /\ NLt(x, c.p) /\ NLt(y, c.p)
  /\ NEq(FMul(c, y, y), FAdd(c, FAdd(c, FMul(c, x, FMul(c, x, x)), FMul(c, c.a, x)), c.b))
PNeg(c, P) == IF P = Inf THEN Inf ELSE << P[1], Norm(FSub(c, << >>, P[2])) >>
PEq(P, Q) == IF P = Inf \/ Q = Inf THEN P = Q ELSE NEq(P[1], Q[1]) /\ NEq(P[2], Q[2])
LOCAL Third(c, P, Q, l) ==
  LET x == FSub(c, FSub(c, FMul(c, l, l), P[1]), Q[1])
  IN << Norm(x), Norm(FSub(c, FMul(c, l, FSub(c, P[1], x)), P[2])) >>
PDouble(c, P) ==
  IF P = Inf \/ NZero(P[2]) THEN Inf
  ELSE Third(c, P, P, FMul(c, FAdd(c, FMul(c, << 3 >>, FMul(c, P[1], P[1])), c.a), FInv(c, FMul(c, << 2 >>, P[2]))))
PAdd(c, P, Q) ==
  IF P = Inf THEN Q ELSE IF Q = Inf THEN P
  ELSE IF NEq(P[1], Q[1]) THEN (IF NEq(P[2], Q[2]) THEN PDouble(c, P) ELSE Inf)
  ELSE Third(c, P, Q, FMul(c, FSub(c, Q[2], P[2]), FInv(c, FSub(c, Q[1], P[1]))))
Bits(k) == Concat([i \in 1..Len(k) |-> [j \in 1..8 |-> (k[i] \div 2^(8 - j)) % 2]])
PureScalarMul(c, k, P) ==
  FoldLeft(LAMBDA acc, bit : LET d == PDouble(c, acc) IN IF bit = 1 THEN PAdd(c, d, P) ELSE d, Inf, Bits(k))
ScalarMul(c, k, P) == PureScalarMul(c, k, P)

P256 == [p |-> Hex("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
         a |-> Hex("ffffffff00000001000000000000000000000000fffffffffffffffffffffffc"),
         b |-> Hex("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
         gx |-> Hex("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
         gy |-> Hex("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
         n |-> Hex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
         w |-> 32]
Gen(c) == << c.gx, c.gy >>

(* FIPS 186 ECDSA verification of the hash value e (a number). *)
EcdsaOk(c, e, Q, r, s) ==
  /\ ~NZero(r) /\ NLt(r, c.n) /\ ~NZero(s) /\ NLt(s, c.n)
  /\ LET w == NInvMod(s, c.n)
         R == PAdd(c, ScalarMul(c, NMod(NMul(e, w), c.n), Gen(c)), ScalarMul(c, NMod(NMul(r, w), c.n), Q))
     IN R # Inf /\ NEq(NMod(R[1], c.n), r)
=============================================================================
