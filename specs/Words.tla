------------------------------- MODULE Words -------------------------------
(* Machine words as sequences of 16-bit limbs, most significant first: TLC's *)
(* integers are 32 bits wide and signed.                                      *)
EXTENDS Bytes

Pow2 == TLCEval([i \in 0..16 |-> 2^i])

WXor(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
WAnd(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] & b[i]])
WNot(a)    == TLCEval([i \in 1..Len(a) |-> 65535 - a[i]])

(* Addition modulo 2^(16 Len(a)). *)
WAdd(a, b) ==
  FoldLeft(LAMBDA acc, i :
             LET k == Len(a) + 1 - i
                 t == a[k] + b[k] + acc[1]
             IN << t \div 65536, << t % 65536 >> \o acc[2] >>,
           << 0, << >> >>, IndexSeq(Len(a)))[2]

(* The limb n places to the left in the bit string a rotated right. *)
WRotr(a, n) ==
  LET L == Len(a)  q == n \div 16  r == n % 16
      At(i) == a[((i - 1 + 2 * L) % L) + 1]
  IN TLCEval([i \in 1..L |-> (At(i - q) \div Pow2[r]) + ((At(i - q - 1) % Pow2[r]) * Pow2[16 - r])])
WRotl(a, n) == WRotr(a, 16 * Len(a) - n)

WShr(a, n) ==
  LET L == Len(a)  q == n \div 16  r == n % 16
      At(i) == IF i < 1 THEN 0 ELSE a[i]
  IN TLCEval([i \in 1..L |-> (At(i - q) \div Pow2[r]) + ((At(i - q - 1) % Pow2[r]) * Pow2[16 - r])])

(* Bytes to words and back, big-endian. *)
WordBE(b)  == TLCEval([i \in 1..(Len(b) \div 2) |-> 256 * b[2*i-1] + b[2*i]])
BytesBE(w) == TLCEval([i \in 1..(2 * Len(w)) |-> IF i % 2 = 1 THEN w[(i+1) \div 2] \div 256 ELSE w[i \div 2] % 256])
WordLE(b)  == WordBE(Rev(b))
BytesLE(w) == Rev(BytesBE(w))
=============================================================================
