-------------------------------- MODULE Hkdf --------------------------------
(* RFC 2104 HMAC and RFC 5869 HKDF over SHA-256 (h = 256) or SHA-512.        *)
EXTENDS Sha2

HashOf(h, m)  == IF h = 256 THEN Sha256(m) ELSE Sha512(m)
HashLen(h)    == IF h = 256 THEN 32 ELSE 64
HashBlock(h)  == IF h = 256 THEN 64 ELSE 128

Hmac(h, key, m) ==
  LET k0 == IF Len(key) > HashBlock(h) THEN HashOf(h, key) ELSE key
      k  == k0 \o Zeros(HashBlock(h) - Len(k0))
      ipad == [i \in 1..Len(k) |-> k[i] ^^ 54]
      opad == [i \in 1..Len(k) |-> k[i] ^^ 92]
  IN HashOf(h, opad \o HashOf(h, ipad \o m))

HkdfExtract(h, salt, ikm) == Hmac(h, salt, ikm)

HkdfExpand(h, prk, info, n) ==
  LET blocks == (n + HashLen(h) - 1) \div HashLen(h)
      r == FoldLeft(LAMBDA acc, i : LET t == Hmac(h, prk, acc[2] \o info \o << i >>)
                                    IN << acc[1] \o t, t >>,
                    << << >>, << >> >>, IndexSeq(blocks))
  IN Take(r[1], n)
=============================================================================
