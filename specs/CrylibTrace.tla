---------------------------- MODULE CrylibTrace ----------------------------
(***************************************************************************)
(* Judges recorded executions of crylib.                                   *)
(*                                                                         *)
(* A trace is a sequence of operations with the results the library gave.  *)
(* The state of the specification is the set of live objects (hashers,     *)
(* authenticators, ciphers), each described by what defines its future     *)
(* behaviour: the algorithm, the key and the bytes fed so far.  Every      *)
(* operation must give the result the standards, or arithmetic, define.    *)
(*                                                                         *)
(* An event is [o |-> operation, a |-> arguments, r |-> results]; numbers  *)
(* are big-endian hexadecimal strings; byte strings are << "x", hex >>,    *)
(* << "@", n, seed >> (a pattern) or << "#", n, sha256 >> (long results).  *)
(***************************************************************************)
EXTENDS Long, Curve, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, pos, st, bad

(******************************** byte strings ******************************)
Data(d) == IF d[1] = "@" THEN Pattern(d[2], d[3]) ELSE Hex(d[2])
Is(d, b) == IF d[1] = "#" THEN d[2] = Len(b) /\ d[3] = ToHex(Sha256(b)) ELSE Hex(d[2]) = b
Old(n) == Rep(165, n)                              \* what the driver fills buffers with

(***************************** unsigned integers ****************************)
V(h) == Hex(h)
W(n) == 8 * n                                      \* bytes in n digits
Fix(n, x) == NFix(x, W(n))
U(h, n, x) == Hex(h) = NFix(x, W(n))               \* h is x modulo 2^(64 n)
Flag(f, b) == f = IF b THEN 1 ELSE 0
Fits(n, x) == Len(Norm(x)) <= W(n)
BitAt(b, i) == (b[Len(b) - (i \div 8)] \div 2^(i % 8)) % 2
BitLen(x) == LET y == Norm(x) IN IF y = << >> THEN 0 ELSE 8 * (Len(y) - 1) + (CHOOSE k \in 1..8 : 2^(k - 1) <= y[1] /\ y[1] < 2^k)
Digits(x) == (Len(Norm(x)) + 7) \div 8
NotB(b) == TLCEval([i \in 1..Len(b) |-> 255 - b[i]])
AndB(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] & b[i]])
OrB(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] | b[i]])
Shl(x, k) == NMul(x, NPow2(k))
Shr(x, k) == NDiv(x, NPow2(k))
SetBit(b, i, v) == LET k == Len(b) - (i \div 8)  w == 2^(i % 8)
                   IN [b EXCEPT ![k] = @ - (((@ \div w) % 2) * w) + v * w]
Both(r, n, x) == U(r[1], n, x) /\ U(r[2], n, x)
AllOnes(n) == Rep(255, W(n))
CmpOk(c, r, n, a, b) ==      \* c: 0, 1 or 2
  /\ r[1] = c /\ r[2] = c
  /\ Flag(r[3], c = 0) /\ Flag(r[4], c # 2) /\ Flag(r[5], c = 2) /\ Flag(r[6], c # 0) /\ Flag(r[7], c = 1) /\ Flag(r[8], c # 1)

Unsigned(o, n, a, r) ==
  LET x == V(a[2])
      y == V(a[3])
      k == a[3]
  IN CASE o = "u.oadd" -> LET s == NAdd(x, y) c == ~Fits(n, s) IN U(r[1], n, s) /\ Flag(r[2], c) /\ U(r[3], n, s) /\ Flag(r[4], c)
       [] o = "u.osub" -> LET c == NLt(x, y)  s == NSub(NAdd(x, NPow2(64 * n)), y)
                          IN U(r[1], n, s) /\ Flag(r[2], c) /\ U(r[3], n, s) /\ Flag(r[4], c)
       [] o = "u.add" -> Both(r, n, NAdd(x, y))
       [] o = "u.sub" -> Both(r, n, NSub(NAdd(x, NPow2(64 * n)), y))
       [] o = "u.double" -> Both(r, n, NAdd(x, x))
       [] o = "u.muld" -> LET p == NMul(x, y)  hi == Shr(p, 64 * n)
                          IN /\ \A i \in {1, 2, 3, 5} : U(r[i], n, p)
                             /\ \A i \in {4, 6} : U(r[i], 1, hi)
       [] o = "u.bool" -> Both(r, n, IF k = 1 THEN x ELSE << >>)
       [] o = "u.logic" ->
            LET want == << AndB(x, y), OrB(x, y), XorBytes(x, y), NotB(OrB(x, y)), NotB(XorBytes(x, y)), NotB(AndB(x, y)), NotB(x) >>
            IN \A i \in 1..7 : V(r[2*i-1]) = want[i] /\ V(r[2*i]) = want[i]
       [] o = "u.shr" -> Both(r, n, Shr(x, k % 64))
       [] o = "u.shl" -> Both(r, n, Shl(x, k % 64))
       [] o = "u.lalign" -> LET s == (64 - (BitLen(x) % 64)) % 64 IN U(r[1], n, Shl(x, s)) /\ r[2] = s
       [] o = "u.count" -> r = << Digits(x), Digits(x), BitLen(x), n >>
       [] o = "u.bit" -> r = << BitAt(x, k) >>
       [] o = "u.setbit" -> V(r[1]) = SetBit(x, k, a[4])
       [] o = "u.setbyte" -> V(r[1]) = [x EXCEPT ![Len(x) - k] = V(a[4])[1]]
       [] o = "u.resize" -> U(r[1], k, x)
       [] o = "u.cmp" -> LET c == NCmp(x, y) IN CmpOk(c, r, n, x, y) /\ V(r[9]) = (IF c = 0 THEN y ELSE x) /\ V(r[10]) = (IF c = 2 THEN y ELSE x)
       [] o = "u.from" -> /\ U(r[1], n, y) /\ \A i \in {2, 3, 4, 7, 8} : V(r[i]) = x
                          /\ r[5] = 0 /\ r[6] = 0
                          /\ V(r[9]) = Zeros(W(n)) /\ V(r[10]) = Zeros(W(n)) /\ U(r[11], n, << 1 >>) /\ V(r[12]) = AllOnes(n) /\ V(r[13]) = Zeros(W(n))
       [] o = "u.wmul" -> U(r[1], 2 * n, NMul(x, y)) /\ Len(V(r[1])) = 2 * W(n)
       [] o = "u.wshl" -> U(r[1], n + 1, Shl(x, k % 64))
       [] o = "u.div" -> LET d == NDivMod(x, y) IN U(r[1], n, d[1]) /\ U(r[2], n, d[2]) /\ U(r[3], n, d[1])
       [] o = "u.bytes" -> V(r[1]) = x /\ V(r[2]) = Rev(x) /\ V(r[3]) = x /\ V(r[4]) = Rev(x)
       [] o = "u.fmt" -> LET h == a[2] IN r[1] = "0x" \o h /\ r[2] = "0x" \o h /\ r[3] = "0x" \o a[3]

(****************************** signed integers *****************************)
(* << negative, digits >>; the value is digits, less 2^(64 n) if negative.   *)
S(x) == << SubSeq(x, 1, 1) = "n", Hex(SubSeq(x, 2, Len(x))) >>
(* the same as a two's-complement number of 64 n + 1 bits *)
Two(n, v) == Norm(IF v[1] THEN << 1 >> \o v[2] ELSE v[2])
OfTwo(n, t) == LET m == NMod(t, NPow2(64 * n + 1)) IN << ~Fits(n, m), Fix(n, m) >>
Mag(n, v) == IF v[1] THEN NSub(NPow2(64 * n), v[2]) ELSE Norm(v[2])       \* absolute value
(* the integer with this sign and magnitude, modulo 2^(64 n + 1) *)
OfMag(n, neg, m) == OfTwo(n, IF neg THEN NSub(NPow2(64 * n + 1), NMod(m, NPow2(64 * n + 1))) ELSE m)
IsMin(v) == v[1] /\ NZero(v[2])
SCmp(n, x, y) == IF x[1] # y[1] THEN (IF x[1] THEN 0 ELSE 2) ELSE NCmp(x[2], y[2])

Signed(o, n, a, r) ==
  LET x == S(a[2])
      y == S(a[3])
      k == a[3]
      BothS(v) == S(r[1]) = v /\ S(r[2]) = v
      Minus(p, q) == OfTwo(n, NSub(NAdd(Two(n, p), NPow2(64 * n + 1)), Two(n, q)))
  IN CASE o = "i.add" -> BothS(OfTwo(n, NAdd(Two(n, x), Two(n, y))))
       [] o = "i.sub" -> BothS(Minus(x, y))
       [] o = "i.neg" -> BothS(Minus(<< FALSE, Fix(n, << >>) >>, x))
       [] o = "i.abs" -> BothS(IF IsMin(x) THEN << FALSE, x[2] >> ELSE << FALSE, Fix(n, Mag(n, x)) >>)
       [] o = "i.not" -> BothS(<< ~x[1], NotB(x[2]) >>)
       [] o = "i.xor" -> BothS(<< x[1] # y[1], XorBytes(x[2], y[2]) >>)
       [] o = "i.sign" -> /\ Flag(r[1], x[1]) /\ Flag(r[2], ~x[1] /\ ~NZero(x[2])) /\ Flag(r[3], ~x[1]) /\ r[4] = n
                          /\ S(r[5]) = << FALSE, Zeros(W(n)) >> /\ S(r[6]) = << FALSE, Fix(n, << 1 >>) >>
                          /\ S(r[7]) = << TRUE, AllOnes(n) >> /\ S(r[8]) = << FALSE, AllOnes(n) >> /\ S(r[9]) = << TRUE, Zeros(W(n)) >>
       [] o = "i.cmp" -> CmpOk(SCmp(n, x, y), r, n, x, y)
       [] o = "i.resize" ->
            LET v == S(r[1])
            IN /\ Len(v[2]) = W(k)
               /\ IF Fits(k, Mag(n, x)) \/ (x[1] /\ Mag(n, x) = NPow2(64 * k)) THEN v = OfMag(k, x[1], Mag(n, x)) ELSE v[2] = NFix(x[2], W(k))
       [] o = "i.wmul" -> S(r[1]) = OfMag(2 * n, x[1] # y[1], NMul(Mag(n, x), Mag(n, y)))
       [] o = "i.div" -> LET d == NDivMod(Mag(n, x), Mag(n, y))
                             q == OfMag(n, x[1] # y[1], d[1])
                         IN S(r[1]) = q /\ S(r[2]) = OfMag(n, x[1], d[2]) /\ S(r[3]) = q

(*********************************** fields *********************************)
FieldTable ==
  [poly |-> << 3, "03fffffffffffffffffffffffffffffffb" >>, p192 |-> << 3, "fffffffffffffffffffffffffffffffeffffffffffffffff" >>,
   max192 |-> << 3, "ffffffffffffffffffffffffffffffffffffffffffffff13" >>, m127 |-> << 3, "7fffffffffffffffffffffffffffffff" >>,
   tiny2 |-> << 3, "02" >>, tiny13 |-> << 3, "0d" >>,
   p256 |-> << 4, "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff" >>,
   n256 |-> << 4, "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551" >>,
   p255 |-> << 4, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed" >>,
   max256 |-> << 4, "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff43" >>,
   k256 |-> << 4, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f" >>,
   word |-> << 4, "ffffffffffffffc5" >>, p129 |-> << 4, "0100000000000000000000000000000033" >>,
   tiny3 |-> << 4, "03" >>, tiny5 |-> << 4, "05" >>, tiny17 |-> << 4, "11" >>]
P(f) == Hex(FieldTable[f][2])

Field(o, f, a, r) ==
  LET n == FieldTable[f][1]
      p == P(f)
      x == V(a[2])
      y == V(a[3])
      El(h, v) == Hex(h) = Fix(n, NMod(v, p))
      BothF(v) == El(r[1], v) /\ El(r[2], v)
  IN CASE o = "f.new" -> LET in == NLt(x, p)
                         IN /\ El(r[1], x) /\ Flag(r[2], in) /\ r[3] = (IF in THEN a[2] ELSE "x") /\ r[4] = r[3]
                            /\ El(r[5], << >>) /\ El(r[6], << 1 >>) /\ El(r[7], << >>)
       [] o = "f.add" -> BothF(NAdd(x, y))
       [] o = "f.sub" -> BothF(NSub(NAdd(x, p), y))
       [] o = "f.double" -> BothF(NAdd(x, x))
       [] o = "f.neg" -> BothF(NSub(p, x)) /\ El(r[3], NSub(p, x)) /\ El(r[4], NSub(p, x))
       [] o = "f.mul" -> BothF(NMul(x, y))
       [] o = "f.muld" -> BothF(NMul(x, y))
       [] o = "f.sqr" -> BothF(NMul(x, x))
       [] o = "f.count" -> r = << Digits(x) >>
       [] o = "f.div" -> /\ Len(V(r[1])) = W(n) /\ NLt(V(r[1]), p) /\ NEq(NMod(NMul(V(r[1]), y), p), x)
       [] o = "f.inv" -> /\ Len(V(r[1])) = W(n) /\ NLt(V(r[1]), p) /\ NEq(NMod(NMul(V(r[1]), x), p), << 1 >>)
       [] o = "f.conv" -> V(r[1]) = Fix(4, NMod(x, P(a[3])))

(*********************************** curves *********************************)
Tiny(p, a, b, gx, gy, n) == [p |-> << p >>, a |-> << a >>, b |-> << b >>, gx |-> << gx >>, gy |-> << gy >>, n |-> << n >>, w |-> 32]
Curves ==
  [c7a |-> Tiny(7, 0, 3, 1, 2, 13), c7b |-> Tiny(7, 1, 1, 0, 1, 5), c11c |-> Tiny(11, 1, 1, 0, 1, 7), c13 |-> Tiny(13, 7, 6, 1, 1, 11),
   c13c |-> Tiny(13, 11, 5, 2, 3, 5), c17 |-> Tiny(17, 3, 12, 1, 4, 23), c31 |-> Tiny(31, 10, 14, 0, 13, 23), cp256 |-> P256,
   ck256 |-> [p |-> Hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"), a |-> << >>, b |-> << 7 >>,
              gx |-> Hex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
              gy |-> Hex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
              n |-> Hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"), w |-> 32]]
(* the point that the projective coordinates << X, Y, Z >> stand for *)
Co(s) == TLCEval([i \in 1..Len(s) |-> Hex(s[i])])
Affine(c, q) == IF NZero(q[3]) THEN Inf ELSE LET zi == FInv(c, q[3]) IN << Norm(FMul(c, q[1], zi)), Norm(FMul(c, q[2], zi)) >>
(* are these reduced coordinates of the affine point R (or of infinity)? *)
IsPoint(c, s, R) ==
  LET q == Co(s)
  IN /\ Len(s) = 3 /\ \A i \in 1..3 : Len(q[i]) = 32 /\ NLt(q[i], c.p)
     /\ IF R = Inf THEN NZero(q[3]) /\ NZero(q[1]) /\ ~NZero(q[2])
        ELSE /\ ~NZero(q[3]) /\ NEq(q[1], FMul(c, R[1], q[3])) /\ NEq(q[2], FMul(c, R[2], q[3]))
IsAffine(c, s, R) == IF R = Inf THEN s = << "x" >> ELSE /\ Len(s) = 2 /\ Hex(s[1]) = NFix(R[1], 32) /\ Hex(s[2]) = NFix(R[2], 32)
At(s) == IF s = << "x" >> THEN Inf ELSE << Norm(Hex(s[1])), Norm(Hex(s[2])) >>

RECURSIVE SignWith(_, _, _, _, _)
(* the first usable one among the nonces ks[i...] *)
SignWith(c, d, e, ks, i) ==
  LET k == Hex(ks[i])
      R == ScalarMul(c, k, Gen(c))
      r == NMod(R[1], c.n)
      s == NMod(NMul(NInvMod(k, c.n), NAdd(e, NMul(r, d))), c.n)
  IN IF NZero(k) \/ R = Inf THEN SignWith(c, d, e, ks, i + 1)
     ELSE IF NZero(r) \/ NZero(s) THEN SignWith(c, d, e, ks, i + 1)
     ELSE << NFix(r, 32), NFix(s, 32), i >>

Curves_(o, c, a, r) ==
  CASE o = "e.const" -> /\ V(r[1]) = NFix(c.p, 32) /\ V(r[2]) = NFix(c.a, 32) /\ V(r[3]) = NFix(c.b, 32)
                        /\ IsPoint(c, r[4], Gen(c)) /\ V(r[5]) = NFix(c.n, 32) /\ IsPoint(c, r[6], Inf)
    [] o = "e.new" -> LET x == V(a[2])  y == V(a[3])  on == OnCurve(c, x, y)  R == IF on THEN << Norm(x), Norm(y) >> ELSE Inf
                      IN /\ Flag(r[1], on) /\ Flag(r[2], on) /\ IsAffine(c, r[3], R)
                         /\ \A i \in {4, 5} : IF on THEN IsPoint(c, r[i], R) ELSE r[i] = << "x" >>
    [] o = "e.add" -> LET X == Affine(c, Co(a[2]))  Y == Affine(c, Co(a[3]))  R == PAdd(c, X, Y)
                          F == IF X = Inf \/ Y = Inf THEN Inf ELSE R       \* the fast versions: documented
                          Fast(s) == IF F = R THEN IsPoint(c, s, R) ELSE NZero(Co(s)[3])
                      IN /\ IsPoint(c, r[1], R) /\ IsPoint(c, r[2], R) /\ Fast(r[3]) /\ Fast(r[4])
                         /\ Flag(r[5], PEq(X, Y)) /\ Flag(r[6], PEq(X, Y))
    [] o = "e.one" -> LET X == Affine(c, Co(a[2]))
                      IN /\ IsPoint(c, r[1], PDouble(c, X)) /\ IsPoint(c, r[2], PDouble(c, X))
                         /\ IsPoint(c, r[3], PNeg(c, X)) /\ IsPoint(c, r[4], PNeg(c, X))
                         /\ Flag(r[5], X = Inf) /\ IsAffine(c, r[6], X) /\ IsAffine(c, r[7], X) /\ r[8] = 1
    [] o = "e.mul" -> LET R == ScalarMul(c, V(a[3]), Affine(c, Co(a[2])))
                      IN /\ IsPoint(c, r[1], R) /\ IsPoint(c, r[2], R) /\ (R = Inf \/ OnCurve(c, R[1], R[2]))
    [] o = "e.aadd" -> LET X == At(a[2])  Y == At(a[3]) IN IsAffine(c, r[1], PAdd(c, X, Y)) /\ Flag(r[2], PEq(X, Y))
    [] o = "e.aone" -> LET X == At(a[2])
                       IN \A i \in 1..2 : IsAffine(c, r[i], PDouble(c, X)) /\ IsAffine(c, r[i + 2], PNeg(c, X))
    [] o = "e.ver" -> Flag(r[1], EcdsaOk(c, V(a[3]), Affine(c, Co(a[2])), V(a[4]), V(a[5])))
    [] o = "e.sign" -> LET w == SignWith(c, V(a[2]), V(a[3]), a, 4)
                       IN /\ V(r[1]) = w[1] /\ V(r[2]) = w[2] /\ r[3] = w[3] - 3
                          /\ LET Q == ScalarMul(c, V(a[2]), Gen(c)) IN Q = Inf \/ EcdsaOk(c, V(a[3]), Q, w[1], w[2])

(*************************** objects with a history *************************)
AlgBits(alg) == IF alg \in {"256", "b256"} THEN 256 ELSE 512
SealWith(alg, key, nonce, aad, pt) == IF alg = "chacha" THEN ChaChaSeal(key, nonce, aad, pt) ELSE GcmSeal(key, nonce, aad, pt)
OpenWith(alg, key, nonce, aad, sealed) == IF alg = "chacha" THEN ChaChaOpen(key, nonce, aad, sealed) ELSE GcmOpen(key, nonce, aad, sealed)
(* what opening would give if the tag were right *)
Stream(alg, key, nonce, ct) == Take(SealWith(alg, key, nonce, << >>, ct), Len(ct))
Dead == [k |-> "none"]
Mac(ob, more) == Hmac(AlgBits(ob.alg), ob.key, ob.fed \o more)

(* Is the result right for the object ob?  And what becomes of the object (After). *)
Object(o, ob, a, r) ==
  CASE o \in {"h.new", "h.fork", "h.block", "h.feed", "m.new", "m.block", "m.feed", "p.new", "p.block", "p.feed", "a.new"} -> r = << "ok" >>
    [] o \in {"h.get", "h.finish"} -> V(r[1]) = HashOf(AlgBits(ob.alg), ob.fed)
    [] o = "h.finishw" -> V(r[1]) = HashOf(AlgBits(ob.alg), ob.fed \o Data(a[2]))
    [] o = "m.finish" -> V(r[1]) = Mac(ob, << >>)
    [] o = "m.finishw" -> V(r[1]) = Mac(ob, Data(a[2]))
    [] o = "p.finish" -> V(r[1]) = Poly1305(ob.key, ob.fed)
    [] o = "p.finishw" -> V(r[1]) = Poly1305(ob.key, ob.fed \o Data(a[2]))
    [] o = "a.seal" -> LET pt == Data(a[4])  n == Len(pt)
                           c == SealWith(ob.alg, ob.key, V(a[2]), Data(a[3]), pt)
                       IN /\ Is(r[1], Take(c, n)) /\ V(r[2]) = Drop(c, n)
                          /\ Is(r[3], Take(c, n) \o Old(3)) /\ V(r[4]) = Drop(c, n)
    [] o = "a.open" -> LET ct == Data(a[4])  n == Len(ct)
                           w == OpenWith(ob.alg, ob.key, V(a[2]), Data(a[3]), ct \o V(a[5]))
                           secret == Stream(ob.alg, ob.key, V(a[2]), ct)
                           kept(d) == \/ \E b \in {ct, Old(n), Zeros(n)} : Is(d, b \o Old(3))
                                      \/ /\ d[1] = "x" /\ Len(V(d[2])) = n + 3
                                         /\ \A i \in 0..(n \div 8) : LET g == Chunk(secret, 8, i)
                                              IN Len(g) < 8 \/ Slice(V(d[2]), 8 * i, 8) # g \/ Chunk(ct, 8, i) = g \/ g \in {Old(8), Zeros(8)}
                       IN IF w[1] THEN r[1] = 1 /\ Is(r[2], w[2]) /\ r[3] = 1 /\ Is(r[4], w[2] \o Old(3))
                          ELSE r[1] = 0 /\ Is(r[2], ct) /\ r[3] = 0 /\ kept(r[4])
After(o, ob, a) ==
  CASE o = "h.new" -> [k |-> "h", alg |-> a[2], fed |-> << >>]
    [] o = "m.new" -> [k |-> "m", alg |-> a[2], key |-> Data(a[3]), fed |-> << >>]
    [] o = "p.new" -> [k |-> "p", key |-> V(a[2]), fed |-> << >>]
    [] o = "a.new" -> [k |-> "a", alg |-> a[2], key |-> V(a[3])]
    [] o \in {"h.block", "h.feed", "m.block", "m.feed", "p.block"} -> [ob EXCEPT !.fed = @ \o Data(a[2])]
    [] o = "p.feed" -> [ob EXCEPT !.fed = @ \o PadTo(Data(a[2]), 16)]
    [] o \in {"h.finish", "h.finishw", "m.finish", "m.finishw", "p.finish", "p.finishw"} -> Dead
    [] OTHER -> ob

Plain(o, a, r) ==
  CASE o = "h.hash" -> LET h == HashOf(AlgBits(a[1]), Data(a[2])) IN V(r[1]) = h /\ V(r[2]) = h
    [] o = "m.auth" -> LET t == Hmac(AlgBits(a[1]), Data(a[2]), Data(a[3])) IN V(r[1]) = t /\ V(r[2]) = t
    [] o = "k.ext" -> V(r[1]) = HkdfExtract(AlgBits(a[1]), Data(a[2]), Data(a[3]))
    [] o = "k.exp" -> Is(r[1], HkdfExpand(AlgBits(a[1]), Data(a[2]), Data(a[3]), a[4]))
    [] o = "l.hash" -> LET h == ZerosThen(AlgBits(a[1]), a[2], Data(a[3])) IN V(r[1]) = h /\ V(r[2]) = h
    [] o = "l.aad" -> LET la == Length(a[4], 1048576, a[5])
                      IN V(r[1]) = IF a[1] = "chacha" THEN ChaChaZeroTag(V(a[2]), V(a[3]), a[4] * 65536 + ((a[5] + 15) \div 16), la) ELSE GcmZeroTag(V(a[2]), V(a[3]), la, << >>)
    [] o = "l.open" -> LET lc == a[5] * 1048576 + a[6]
                           right == V(a[7]) = GcmZeroTag(V(a[2]), V(a[3]), NLeft(a[4]), NLeft(lc))
                       IN /\ Flag(r[1], right)
                          /\ V(r[2]) = Concat([i \in 1..(Len(a) - 7) |-> Take(IF right THEN GcmStreamBlock(V(a[2]), V(a[3]), a[i + 7]) ELSE Zeros(16), lc - 16 * a[i + 7])])
    [] o = "p.auth" -> V(r[1]) = Poly1305(V(a[1]), Data(a[2]))
    [] o = "p.key" -> V(r[1]) = Take(ChaChaBlock(V(a[1]), Zeros(4), V(a[2])), 32)
    [] o = "s.aes" -> LET c == AesBlock(V(a[2]), V(a[3])) IN V(r[1]) = c /\ V(r[2]) = c /\ r[3] = Len(V(a[2])) /\ r[4] = Len(V(a[2])) \div 4 + 6
    [] o = "s.chacha" -> LET m == Data(a[4])  c == ChaChaStream(V(a[1]), V(a[3]), V(a[2]), m) IN Is(r[1], c) /\ Is(r[2], c \o Old(3))

(***************************** following a trace ****************************)
Stateful == {"h.new", "h.fork", "h.block", "h.feed", "h.get", "h.finish", "h.finishw", "m.new", "m.block", "m.feed", "m.finish", "m.finishw",
             "p.new", "p.block", "p.feed", "p.finish", "p.finishw", "a.new", "a.seal", "a.open"}
Here(e) == IF e.o \in Stateful /\ e.a[1] \in DOMAIN st THEN st[e.a[1]] ELSE Dead
Right(e) ==
  IF e.f # "" THEN FALSE                                      \* it panicked, died or did not return
  ELSE IF e.o \in Stateful THEN Object(e.o, Here(e), e.a, e.r)
  ELSE CASE e.g = "u" -> Unsigned(e.o, e.a[1], e.a, e.r)
         [] e.g = "i" -> Signed(e.o, e.a[1], e.a, e.r)
         [] e.g = "f" -> Field(e.o, e.a[1], e.a, e.r)
         [] e.g = "e" -> Curves_(e.o, Curves["c" \o e.a[1]], e.a, e.r)
         [] OTHER -> Plain(e.o, e.a, e.r)
Next_(e) ==
  IF e.o \notin Stateful THEN st
  ELSE IF e.o = "h.fork" THEN (e.a[2] :> Here(e)) @@ st
  ELSE (e.a[1] :> After(e.o, Here(e), e.a)) @@ st

Init == /\ tid \in 1..Len(Traces) /\ pos = 0 /\ st = << >> /\ bad = 0
Step ==
  /\ pos < Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[pos + 1]
         ok == Right(e)
     IN /\ IF ok THEN TRUE ELSE PrintT(<< "REJECT", Traces[tid].id, pos, e.o >>)
        /\ bad' = IF ok THEN bad ELSE bad + 1
        /\ st' = Next_(e)
  /\ pos' = pos + 1 /\ UNCHANGED tid
Done == /\ pos = Len(Traces[tid].ev)
        /\ PrintT(<< "DONE", Traces[tid].id, pos, bad >>)
        /\ pos' = pos + 1 /\ UNCHANGED << tid, st, bad >>
Spec == Init /\ [][Step \/ Done]_<< tid, pos, st, bad >>
=============================================================================
