------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences of 0..255.                                    *)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise, TLC
(* TLCEval makes TLC evaluate a function constructor at once; it is the identity. *)

HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexValue(c) == CHOOSE i \in 0..15 : HexDigits[i + 1] = c

(* The bytes written in hexadecimal in the string s. *)
Hex(s) == TLCEval([i \in 1..(Len(s) \div 2) |->
             16 * HexValue(SubSeq(s, 2*i-1, 2*i-1)) + HexValue(SubSeq(s, 2*i, 2*i))])

(* and back *)
ToHex(b) == FoldLeft(LAMBDA s, x : s \o HexDigits[(x \div 16) + 1] \o HexDigits[(x % 16) + 1], "", b)

Rep(b, n)   == TLCEval([i \in 1..n |-> b])
Zeros(n)    == Rep(0, n)
(* all of s if it is shorter *)
Take(s, n)  == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Drop(s, n)  == SubSeq(s, n + 1, Len(s))
Slice(s, from, n) == SubSeq(s, from + 1, from + n)        \* n bytes after the first `from'
U8(s, i)    == s[i + 1]                                    \* offsets count from 0
U16(s, i)   == 256 * s[i + 1] + s[i + 2]
U24(s, i)   == 65536 * s[i + 1] + 256 * s[i + 2] + s[i + 3]
BE2(n)      == << (n \div 256) % 256, n % 256 >>
BE3(n)      == << (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
BE4(n)      == << (n \div 16777216) % 256 >> \o BE3(n)
(* n < 2^31 as 8 bytes, most or least significant first *)
BE8(n)      == Zeros(4) \o BE4(n)
LE8(n)      == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256, 0, 0, 0, 0 >>
XorBytes(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
Rev(s)      == TLCEval([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
PadTo(s, n) == IF Len(s) % n = 0 THEN s ELSE s \o Zeros(n - (Len(s) % n))
Concat(ss)  == FoldLeft(LAMBDA a, b : a \o b, << >>, ss)
(* the i-th (from 0) chunk of n bytes, the last one possibly shorter *)
Chunk(s, n, i) == SubSeq(s, n*i + 1, IF n*(i+1) < Len(s) THEN n*(i+1) ELSE Len(s))
Chunks(s, n) == TLCEval([i \in 1..((Len(s) + n - 1) \div n) |-> Chunk(s, n, i - 1)])
IndexSeq(n) == TLCEval([i \in 1..n |-> i])
(* a long byte string that is easy to name *)
PurePattern(n, seed) == TLCEval([i \in 1..n |-> (((i - 1) % 251) * 7 + (((i - 1) \div 251) % 239) * 13 + seed) % 256])
Pattern(n, seed) == PurePattern(n, seed)
=============================================================================
