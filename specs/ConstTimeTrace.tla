--------------------------- MODULE ConstTimeTrace ---------------------------
(***************************************************************************)
(* Judges what was seen of the real operations of crylib that are          *)
(* documented as constant-time.                                            *)
(*                                                                         *)
(* A trace is about one operation at one width, [op, w, ev]; an event is   *)
(* one execution, [b |-> build, a |-> operands, n |-> instructions,        *)
(* p |-> digest of their addresses].  Operands are secret; the build and   *)
(* the operation are not.  As SamePath of ConstTime says, the operation    *)
(* leaks in a build when two executions, whatever their operands, are seen *)
(* to differ.                                                              *)
(*                                                                         *)
(* A compiler may turn a branch in the source into branch-free code and    *)
(* the other way round.  An operation is only said not to be constant-time *)
(* when it leaks in every build it was executed in: when it branches as    *)
(* written, and no optimization takes the branch away.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, pos, seen, first

\* what is documented as constant-time
Unsigned == {"overflowing_add", "overflowing_add_assign", "overflowing_sub", "overflowing_sub_assign", "add", "add_assign",
             "sub", "sub_assign", "xor", "xor_assign", "and", "and_assign", "or", "or_assign", "nor", "nor_assign", "xnor",
             "xnor_assign", "nand", "nand_assign", "not", "not_assign", "count_digits", "len", "left_align", "mul_digit_assign",
             "shift_right", "shift_right_assign", "shift_left", "shift_left_assign", "and_bool", "and_bool_assign",
             "widening_mul", "widening_shift_left"}
Signed == {"add", "add_assign", "sub", "sub_assign", "xor", "xor_assign", "neg", "neg_assign", "not", "not_assign", "abs",
           "abs_assign", "is_negative", "is_positive", "len"}
Element == {"add", "sub", "sub_assign", "count_digits"}
Documented == {"u." \o o : o \in Unsigned} \cup {"i." \o o : o \in Signed} \cup {"f." \o o : o \in Element}
\* what is executed as well, to see whether leaks are seen
Controls == {"u.control"}

Builds(s) == DOMAIN s
Observation(e) == <<e.n, e.p>>
Leaks(s) == Builds(s) # {} /\ \A b \in Builds(s) : Cardinality(s[b]) > 1

Init == /\ tid \in 1..Len(Traces)
        /\ pos = 1
        /\ seen = << >>                             \* build -> what was seen
        /\ first = 0                                \* the first execution after which the operation leaks
Execute ==
  /\ pos <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[pos]
         s == IF e.b \in DOMAIN seen THEN [seen EXCEPT ![e.b] = @ \cup {Observation(e)}] ELSE seen @@ (e.b :> {Observation(e)})
     IN /\ seen' = s
        /\ first' = IF first = 0 /\ e.n > 0 /\ Cardinality(s[e.b]) > 1 THEN pos ELSE first
  /\ pos' = pos + 1
  /\ UNCHANGED tid
Finish ==
  /\ pos = Len(Traces[tid].ev) + 1
  /\ LET t == Traces[tid]
         known == (t.g \o "." \o t.op) \in Documented \cup Controls
     IN PrintT(<<IF Leaks(seen) THEN "LEAK" ELSE IF known THEN "SAME" ELSE "UNKNOWN", t.id, first,
                 [b \in DOMAIN seen |-> Cardinality(seen[b])]>>)
  /\ pos' = pos + 1
  /\ UNCHANGED <<tid, seen, first>>
Next == Execute \/ Finish
Spec == Init /\ [][Next]_<<tid, pos, seen, first>>
=============================================================================
