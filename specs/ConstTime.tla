----------------------------- MODULE ConstTime -----------------------------
(***************************************************************************)
(* The limb algorithms behind the operations crylib documents as           *)
(* constant-time, on small numbers, and what an observer of the executed   *)
(* instructions sees of them.                                              *)
(*                                                                         *)
(* Two runs of the same algorithm on arbitrary different operands advance  *)
(* together; the location of the program is visible, everything else is    *)
(* secret.  An algorithm is constant-time when the two runs are at the     *)
(* same location all the time (SamePath), whatever the operands; and it    *)
(* has to give the value the operation stands for (Right).                 *)
(*                                                                         *)
(* Numbers have N limbs in base B, the lowest first.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS B, N, Algorithms

VARIABLES one, two

Limb == 0..(B - 1)
Number == [1..N -> Limb]
RECURSIVE Sum(_, _)
Sum(x, k) == IF k = 0 THEN 0 ELSE Sum(x, k - 1) + x[k] * B^(k - 1)
Val(x) == Sum(x, N)
Zero == [k \in 1..N |-> 0]
Size == B^N

\* A run: the algorithm, the visible location, the operands, and the secret registers.
Run(alg, x, y, b) == [alg |-> alg, at |-> "start", i |-> 1, x |-> x, y |-> y, b |-> b, c |-> 0, r |-> Zero, n |-> 0, f |-> FALSE]

\* Negative numbers are the sign (b) and the two's complement of the magnitude, as in BigInt.
Mask(b) == IF b THEN B - 1 ELSE 0
And(d, b) == IF b THEN d ELSE 0                    \* d & Mask(b)
Flip(d, b) == IF b THEN B - 1 - d ELSE d           \* d ^ Mask(b)
Modulus == [k \in 1..N |-> IF k = 1 THEN B - 1 ELSE IF k = N THEN 1 ELSE 0]   \* any will do

To(s, loc) == [s EXCEPT !.at = loc]
Next1(s, loc) == [s EXCEPT !.at = loc, !.i = @ + 1]
Last(s) == s.i = N

\* One limb of r := u + v, of r := u - v
AddLimb(s, u, v) == LET t == u + v + s.c IN [s EXCEPT !.r[s.i] = t % B, !.c = t \div B]
SubLimb(s, u, v) == LET t == u - v - s.c IN [s EXCEPT !.r[s.i] = t % B, !.c = IF t < 0 THEN 1 ELSE 0]

Step(s) ==
  CASE s.at = "done" -> s
    [] s.alg = "add" -> LET t == AddLimb(s, s.x[s.i], s.y[s.i]) IN IF Last(s) THEN To(t, "done") ELSE Next1(t, "loop")
    [] s.alg = "sub" -> LET t == SubLimb(s, s.x[s.i], s.y[s.i]) IN IF Last(s) THEN To(t, "done") ELSE Next1(t, "loop")
    [] s.alg = "and_bool" -> LET t == [s EXCEPT !.r[s.i] = And(s.x[s.i], s.b)] IN IF Last(s) THEN To(t, "done") ELSE Next1(t, "loop")
    \* the number of digits, from the highest, with a flag
    [] s.alg = "count_digits" ->
         LET f == s.f \/ s.x[N + 1 - s.i] # 0
             t == [s EXCEPT !.f = f, !.n = @ + (IF f THEN 1 ELSE 0)]
         IN IF Last(s) THEN To(t, "done") ELSE Next1(t, "loop")
    \* one place to the left; the bits from the limb below are masked
    [] s.alg = "shift" ->
         LET low == IF s.i = 1 THEN 0 ELSE s.x[s.i - 1]
             k == IF s.b THEN 2 ELSE 1                   \* the factor
             t == [s EXCEPT !.r[s.i] = ((s.x[s.i] * k) % B) + And((low * k) \div B, s.b)]
         IN IF Last(s) THEN To(t, "done") ELSE Next1(t, "loop")
    \* |x| = (x ^ mask) - mask
    [] s.alg = "abs" ->
         LET t == SubLimb(s, Flip(s.x[s.i], s.b), Mask(s.b)) IN IF Last(s) THEN To(t, "done") ELSE Next1(t, "loop")
    [] s.alg = "is_positive" ->
         LET t == [s EXCEPT !.f = @ \/ s.x[s.i] # 0] IN IF Last(s) THEN To([t EXCEPT !.f = t.f /\ ~s.b], "done") ELSE Next1(t, "loop")
    \* x - y, then the modulus is added back under the mask of the borrow
    [] s.alg = "field_sub" ->
         (CASE s.at \in {"start", "loop"} ->
                 LET t == SubLimb(s, s.x[s.i], s.y[s.i])
                 IN IF Last(s) THEN [To(t, "back") EXCEPT !.i = 1, !.f = (t.c = 1), !.c = 0] ELSE Next1(t, "loop")
            [] s.at = "back" ->
                 LET t == AddLimb(s, s.r[s.i], And(Modulus[s.i], s.f)) IN IF Last(s) THEN To(t, "done") ELSE Next1(t, "back"))
    \* Algorithms that give the same values and are not constant-time.
    [] s.alg = "count_digits_fast" ->                    \* stops at the first digit that is not zero
         IF s.x[N + 1 - s.i] # 0 THEN [To(s, "done") EXCEPT !.n = N + 1 - s.i]
         ELSE IF Last(s) THEN [To(s, "done") EXCEPT !.n = 0] ELSE Next1(s, "loop")
    [] s.alg = "branching_abs" ->                        \* looks at the sign first
         (CASE s.at = "start" -> IF s.b THEN To(s, "loop") ELSE [To(s, "done") EXCEPT !.r = s.x]
            [] s.at = "loop" -> LET t == SubLimb(s, 0, s.x[s.i]) IN IF Last(s) THEN To(t, "done") ELSE Next1(t, "loop"))
    [] s.alg = "branching_field_sub" ->                  \* adds the modulus back only when needed
         (CASE s.at \in {"start", "loop"} ->
                 LET t == SubLimb(s, s.x[s.i], s.y[s.i])
                 IN IF ~Last(s) THEN Next1(t, "loop") ELSE IF t.c = 1 THEN [To(t, "back") EXCEPT !.i = 1, !.c = 0] ELSE To(t, "done")
            [] s.at = "back" ->
                 LET t == AddLimb(s, s.r[s.i], Modulus[s.i]) IN IF Last(s) THEN To(t, "done") ELSE Next1(t, "back"))
    [] s.alg = "lazy_add" ->                             \* stops when nothing is left to add
         LET t == AddLimb(s, s.x[s.i], s.y[s.i])
         IN IF Last(s) THEN To(t, "done")
            ELSE IF t.c = 0 /\ \A k \in (s.i + 1)..N : s.y[k] = 0
                 THEN [To(t, "done") EXCEPT !.r = [k \in 1..N |-> IF k <= s.i THEN t.r[k] ELSE s.x[k]]]
                 ELSE Next1(t, "loop")

Expected(s) ==
  CASE s.alg \in {"add", "lazy_add"} -> Val(s.r) = (Val(s.x) + Val(s.y)) % Size
    [] s.alg = "sub" -> Val(s.r) = (Val(s.x) - Val(s.y)) % Size /\ (s.c = 1) = (Val(s.x) < Val(s.y))
    [] s.alg = "and_bool" -> s.r = IF s.b THEN s.x ELSE Zero
    [] s.alg \in {"count_digits", "count_digits_fast"} -> \A k \in 1..N : (k > s.n => s.x[k] = 0) /\ (k = s.n => s.x[k] # 0)
    [] s.alg = "shift" -> Val(s.r) = (Val(s.x) * (IF s.b THEN 2 ELSE 1)) % Size
    [] s.alg \in {"abs", "branching_abs"} -> Val(s.r) = IF s.b THEN (Size - Val(s.x)) % Size ELSE Val(s.x)
    [] s.alg = "is_positive" -> s.f = (~s.b /\ Val(s.x) > 0)
    [] s.alg \in {"field_sub", "branching_field_sub"} ->
         Val(s.r) = (Val(s.x) - Val(s.y) + (IF Val(s.x) < Val(s.y) THEN Val(Modulus) ELSE 0)) % Size

Init == \E alg \in Algorithms :
          /\ one \in {Run(alg, x, y, b) : x \in Number, y \in Number, b \in BOOLEAN}
          /\ two \in {Run(alg, x, y, b) : x \in Number, y \in Number, b \in BOOLEAN}
Next == /\ ~(one.at = "done" /\ two.at = "done")
        /\ one' = Step(one)
        /\ two' = Step(two)
Spec == Init /\ [][Next]_<<one, two>>

SamePath == one.at = two.at
Right == one.at = "done" => Expected(one)
=============================================================================
