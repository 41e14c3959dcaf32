------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size, as byte strings, most significant first.  A   *)
(* value has many spellings (leading zeros); Norm picks the shortest.         *)
EXTENDS Bytes

LOCAL Digit(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0      \* little-endian digit, 0 outside
LOCAL MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE Norm(_)
Norm(a) == IF a # << >> /\ a[1] = 0 THEN Norm(Tail(a)) ELSE a

(* carry propagation over the little-endian column sums c *)
LOCAL Carry(c) ==
  LET r == FoldLeft(LAMBDA acc, x : << (x + acc[1]) \div 256, Append(acc[2], (x + acc[1]) % 256) >>, << 0, << >> >>, c)
  IN r[2] \o << r[1] % 256, (r[1] \div 256) % 256, r[1] \div 65536 >>

PureAdd(a0, b0) == LET a == Rev(a0) b == Rev(b0)
                   IN Norm(Rev(Carry(TLCEval([i \in 1..MaxLen(a, b) |-> Digit(a, i) + Digit(b, i)]))))

(* -1, 0, 1 as 0, 1, 2 *)
PureCmp(a0, b0) ==
  LET a == Norm(a0) b == Norm(b0)
      d == {i \in 1..Len(a) : a[i] # b[i]}
      m == CHOOSE i \in d : \A j \in d : i <= j
  IN IF Len(a) < Len(b) THEN 0 ELSE IF Len(a) > Len(b) THEN 2
     ELSE IF d = {} THEN 1 ELSE IF a[m] < b[m] THEN 0 ELSE 2

(* a - b for a >= b *)
PureSub(a0, b0) ==
  LET a == Rev(a0) b == Rev(b0)
      r == FoldLeft(LAMBDA acc, i : LET t == 256 + Digit(a, i) - Digit(b, i) - acc[1]
                                    IN << IF t < 256 THEN 1 ELSE 0, Append(acc[2], t % 256) >>,
                    << 0, << >> >>, IndexSeq(MaxLen(a, b)))
  IN Norm(Rev(r[2]))

PureMul(a0, b0) ==
  LET a == Rev(a0) b == Rev(b0)
      Col(k) == FoldLeft(LAMBDA s, i : s + Digit(a, i) * Digit(b, k + 1 - i), 0, IndexSeq(Len(a)))
  IN Norm(Rev(Carry([k \in 1..(Len(a) + Len(b)) |-> Col(k)])))

(* << quotient, remainder >> by long division in base 256; each quotient digit is found by bisection. *)
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==
  IF hi - lo = 1 THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF PureCmp(PureMul(b, << m >>), r) = 2 THEN QDigit(r, b, lo, m) ELSE QDigit(r, b, m, hi)

PureDivMod(a, b) ==
  FoldLeft(LAMBDA acc, d :
             LET r == Norm(Append(acc[2], d))
                 q == QDigit(r, b, 0, 256)
             IN << Norm(Append(acc[1], q)), PureSub(r, PureMul(b, << q >>)) >>,
           << << >>, << >> >>, a)

PurePowMod(a, e, m) ==
  LET bits == Concat([i \in 1..Len(e) |-> [j \in 1..8 |-> (e[i] \div 2^(8 - j)) % 2]])
      Red(x) == PureDivMod(x, m)[2]
  IN FoldLeft(LAMBDA acc, bit : LET s == Red(PureMul(acc, acc)) IN IF bit = 1 THEN Red(PureMul(s, a)) ELSE s,
              Red(<< 1 >>), bits)

(* These may be evaluated by Java overrides (MC_SelfTest compares them). *)
NAdd(a, b) == PureAdd(a, b)
NSub(a, b) == PureSub(a, b)
NMul(a, b) == PureMul(a, b)
NCmp(a, b) == PureCmp(a, b)
NDivMod(a, b) == PureDivMod(a, b)
NPowMod(a, e, m) == PurePowMod(a, e, m)

NDiv(a, b) == NDivMod(a, b)[1]
NMod(a, b) == NDivMod(a, b)[2]
NLt(a, b)  == NCmp(a, b) = 0
NEq(a, b)  == NCmp(a, b) = 1
NZero(a)   == \A i \in 1..Len(a) : a[i] = 0
NPow2(k)   == << 2^(k % 8) >> \o Zeros(k \div 8)
NLeft(n)   == Norm(BE4(n))                     \* a TLC integer as a number
(* exactly n bytes, modulo 256^n *)
NFix(a, n) == IF Len(a) >= n THEN SubSeq(a, Len(a) - n + 1, Len(a)) ELSE Zeros(n - Len(a)) \o a
(* inverse modulo a prime, by Fermat; 0 has none *)
NInvMod(a, p) == NPowMod(NMod(a, p), NSub(p, << 2 >>), p)
=============================================================================
