------------------------------- MODULE Tls13 -------------------------------
(***************************************************************************)
(* RFC 8446 in bytes, as far as this client speaks it: message formats, the *)
(* faults a message contains, the key schedule and record protection.      *)
(***************************************************************************)
EXTENDS Verdicts, Hkdf, Aes, ChaCha, Curve

(***************************** key schedule ********************************)
ExpandLabel(secret, label, ctx, n) ==
  LET l == Hex("746c73313320") \o label
  IN HkdfExpand(256, secret, BE2(n) \o << Len(l) >> \o l \o << Len(ctx) >> \o ctx, n)
LDerived == Hex("64657269766564")            \* "derived"
LServerHs == Hex("732068732074726166666963") \* "s hs traffic"
LClientHs == Hex("632068732074726166666963") \* "c hs traffic"
LKey == Hex("6b6579")   LIv == Hex("6976")
AES128GCM == 4865       (* 0x1301 *)
CHACHAPOLY == 4867      (* 0x1303 *)
KeyLen(suite) == IF suite = AES128GCM THEN 16 ELSE 32

TrafficKeys(suite, secret) == [key |-> ExpandLabel(secret, LKey, << >>, KeyLen(suite)), iv |-> ExpandLabel(secret, LIv, << >>, 12)]
(* From the shared secret and the messages ClientHello..ServerHello *)
HandshakeKeys(suite, dh, transcript) ==
  LET early == HkdfExtract(256, Zeros(32), Zeros(32))
      hs == HkdfExtract(256, ExpandLabel(early, LDerived, Sha256(<< >>), 32), dh)
      th == Sha256(transcript)
  IN [suite |-> suite,
      server |-> TrafficKeys(suite, ExpandLabel(hs, LServerHs, th, 32)),
      client |-> TrafficKeys(suite, ExpandLabel(hs, LClientHs, th, 32))]

(* Record number seq (from 0), with its header, opened under k. *)
OpenRecord(suite, k, seq, record) ==
  LET nonce == XorBytes(k.iv, Zeros(4) \o BE8(seq))
  IN IF suite = AES128GCM THEN GcmOpen(k.key, nonce, Take(record, 5), Drop(record, 5))
     ELSE ChaChaOpen(k.key, nonce, Take(record, 5), Drop(record, 5))

(* TLSInnerPlaintext: the position of the last non-zero byte, 0 if there is none. *)
LastNonZero(b) == SelectLastInSeq(b, LAMBDA x : x # 0)

(*************************** extension blocks ******************************)
(* [ok, list]: the entries << type, body >> before the end or the first bad one *)
(* Lists are walked by folding over as many steps as there can be entries; st.at is the position, st.go turns FALSE
   at the end.  (TLC evaluates deep recursion in quadratic time.) *)
Walk(step(_), start, bound) == FoldLeft(LAMBDA st, k : IF st.go THEN step(st) ELSE st, start, IndexSeq(bound))
Entries(b) ==
  LET Step(st) ==
        LET i == st.at  left == Len(b) - i IN
        IF left = 0 THEN [st EXCEPT !.go = FALSE]
        ELSE IF left < 4 \/ left < 4 + U16(b, i + 2) THEN [st EXCEPT !.go = FALSE, !.ok = FALSE]
        ELSE [st EXCEPT !.at = i + 4 + U16(b, i + 2), !.list = Append(@, << U16(b, i), Slice(b, i + 4, U16(b, i + 2)) >>)]
  IN Walk(Step, [go |-> TRUE, ok |-> TRUE, at |-> 0, list |-> << >>], (Len(b) \div 4) + 1)
ExtTypes(list) == {list[i][1] : i \in 1..Len(list)}
Duplicates(list) == Cardinality(ExtTypes(list)) # Len(list)
ExtBody(list, t) == list[CHOOSE i \in 1..Len(list) : list[i][1] = t][2]

SERVER_NAME == 0  SUPPORTED_GROUPS == 10  SIGNATURE_ALGORITHMS == 13  ALPN == 16  SUPPORTED_VERSIONS == 43  KEY_SHARE == 51
KnownExtensions == {0, 1, 5, 10, 13, 14, 15, 16, 18, 19, 20, 21, 41, 42, 43, 44, 45, 47, 48, 49, 50, 51}
SECP256R1 == 23

(* Length-prefixed names (u8): those before the end or the first bad one *)
NameList(b) ==
  LET Step(st) ==
        LET i == st.at IN
        IF Len(b) = i THEN [st EXCEPT !.go = FALSE]
        ELSE IF Len(b) < i + 1 + b[i + 1] \/ b[i + 1] = 0 THEN [st EXCEPT !.go = FALSE, !.ok = FALSE]
        ELSE [st EXCEPT !.at = i + 1 + b[i + 1], !.list = Append(@, Slice(b, i + 1, b[i + 1]))]
  IN Walk(Step, [go |-> TRUE, ok |-> TRUE, at |-> 0, list |-> << >>], (Len(b) \div 2) + 1)

(***************************** configuration *******************************)
(* cfg: [hassni, sni, hasalpn, alpn, sig, grp, suites]; the masks are numbers. *)
DefaultCfg == [hassni |-> 0, sni |-> << >>, hasalpn |-> 0, alpn |-> << >>, sig |-> 1, grp |-> 1, suites |-> 3]
Suites(cfg) == (IF cfg.suites % 2 = 1 THEN {CHACHAPOLY} ELSE {}) \cup (IF (cfg.suites \div 2) % 2 = 1 THEN {AES128GCM} ELSE {})
HasGroup(cfg) == cfg.grp % 2 = 1
HasSig(cfg) == cfg.sig % 2 = 1
SendsSni(cfg) == cfg.hassni = 1 /\ cfg.sni # << >>
SendsAlpn(cfg) == cfg.hasalpn = 1 /\ cfg.alpn # << >>
OfferedNames(cfg) == IF SendsAlpn(cfg) THEN LET l == NameList(cfg.alpn).list IN {l[i] : i \in 1..Len(l)} ELSE {}
ExtensionsLen(cfg) ==
  (IF SendsSni(cfg) THEN 9 + Len(cfg.sni) ELSE 0) + (IF SendsAlpn(cfg) THEN 6 + Len(cfg.alpn) ELSE 0) + 8 + 7 + 8 + 75
(* The local errors << error, alert >> one of which must be reported, {} if a ClientHello can be sent. *)
AnyAlert == 0..255
CfgErrors(cfg) ==
  (IF HasGroup(cfg) /\ HasSig(cfg) THEN {} ELSE {ErrMissingExtensions} \X AnyAlert)
  \cup (IF Suites(cfg) # {} THEN {} ELSE {ErrTls} \X {HandshakeFailure, InternalError, MissingExtension, InternalError})
  \cup (IF ExtensionsLen(cfg) <= 65535 THEN {} ELSE {ErrTls} \X {InternalError, RecordOverflow})
(* An ill-formed protocol list is the caller's mistake; the client may refuse it or pass it on. *)
CfgMayFail(cfg) == SendsAlpn(cfg) /\ ~NameList(cfg.alpn).ok

(****************************** ClientHello ********************************)
(* The complaints about a complete ClientHello message (a set of names) *)
NoDup(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
U16List(b) == [i \in 1..(Len(b) \div 2) |-> U16(b, 2 * (i - 1))]
ExpectedExts(cfg) == {SIGNATURE_ALGORITHMS, SUPPORTED_VERSIONS, SUPPORTED_GROUPS, KEY_SHARE}
                     \cup (IF SendsSni(cfg) THEN {SERVER_NAME} ELSE {}) \cup (IF SendsAlpn(cfg) THEN {ALPN} ELSE {})
ClientHelloBody(b, cfg) ==      \* b: the body
  IF Len(b) < 38 THEN {"short"} ELSE
  LET sid == b[35] IN
  IF sid # 0 THEN {"session id"} ELSE
  LET ns == U16(b, 35) IN
  IF ns % 2 = 1 \/ Len(b) < 37 + ns + 4 THEN {"suites length"} ELSE
  LET suites == U16List(Slice(b, 37, ns))
      p == 37 + ns
      exts == Entries(Drop(b, p + 4))
      l == exts.list
      Has(t) == t \in ExtTypes(l)
      Is(t, body) == Has(t) => ExtBody(l, t) = body
  IN (IF U16(b, 0) = 771 THEN {} ELSE {"legacy version"})
     \cup (IF NoDup(suites) /\ {suites[i] : i \in 1..Len(suites)} = Suites(cfg) THEN {} ELSE {"cipher suites"})
     \cup (IF Slice(b, p, 2) = << 1, 0 >> THEN {} ELSE {"compression"})
     \cup (IF U16(b, p + 2) = Len(b) - p - 4 /\ exts.ok THEN {} ELSE {"extensions length"})
     \cup (IF ~Duplicates(l) /\ ExtTypes(l) = ExpectedExts(cfg) THEN {} ELSE {"extension types"})
     \cup (IF Is(SIGNATURE_ALGORITHMS, << 0, 2, 4, 3 >>) THEN {} ELSE {"signature algorithms"})
     \cup (IF Is(SUPPORTED_VERSIONS, << 2, 3, 4 >>) THEN {} ELSE {"versions"})
     \cup (IF Is(SUPPORTED_GROUPS, << 0, 2, 0, SECP256R1 >>) THEN {} ELSE {"groups"})
     \cup (IF Is(SERVER_NAME, BE2(Len(cfg.sni) + 3) \o << 0 >> \o BE2(Len(cfg.sni)) \o cfg.sni) THEN {} ELSE {"server name"})
     \cup (IF Is(ALPN, BE2(Len(cfg.alpn)) \o cfg.alpn) THEN {} ELSE {"application protocols"})
     \cup (IF Has(KEY_SHARE)
           THEN LET k == ExtBody(l, KEY_SHARE)
                IN IF Len(k) = 71 /\ Take(k, 7) = << 0, 69, 0, SECP256R1, 0, 65, 4 >>
                      /\ OnCurve(P256, Slice(k, 7, 32), Slice(k, 39, 32)) THEN {} ELSE {"key share"}
           ELSE {})
HelloRandom(msg) == Slice(msg, 6, 32)
HelloShare(msg) ==
  LET b == Drop(msg, 4)  p == 37 + U16(b, 35)  k == ExtBody(Entries(Drop(b, p + 4)).list, KEY_SHARE)
  IN << Norm(Slice(k, 7, 32)), Norm(Slice(k, 39, 32)) >>

(* The 32-byte pieces of the drawn random bytes that are the private key (most significant byte first or last) *)
DrawIndexes(draws) == 1..(Len(draws) \div 32)
DrawAt(draws, i) == Slice(draws, 32 * (i - 1), 32)
ScalarsOf(d) == {NMod(Rev(d), P256.n), NMod(d, P256.n)}
KeyDraws(draws, share) == {i \in DrawIndexes(draws) : \E k \in ScalarsOf(DrawAt(draws, i)) :
                              ~NZero(k) /\ PEq(ScalarMul(P256, k, Gen(P256)), share)}
PrivateKey(draws, share, i) == CHOOSE k \in ScalarsOf(DrawAt(draws, i)) : ~NZero(k) /\ PEq(ScalarMul(P256, k, Gen(P256)), share)
ZeroDraw(draws) == \E i \in DrawIndexes(draws) : \E k \in ScalarsOf(DrawAt(draws, i)) : NZero(k)

(* The plaintext records that carry the first flight: [ok, done, msg, len] *)
RECURSIVE Flight(_, _, _)
Flight(tx, at, msg) ==
  LET rest == Len(tx) - at IN
  IF Len(msg) >= 4 /\ Len(msg) >= 4 + U24(msg, 1) THEN [ok |-> Len(msg) = 4 + U24(msg, 1), done |-> TRUE, msg |-> msg, len |-> at, whole |-> TRUE]
  ELSE IF rest = 0 THEN [ok |-> TRUE, done |-> FALSE, msg |-> msg, len |-> at, whole |-> TRUE]
  ELSE IF tx[at + 1] # HANDSHAKE \/ (rest >= 2 /\ tx[at + 2] # 3) \/ (rest >= 3 /\ tx[at + 3] \notin {1, 3})
       \/ (rest >= 5 /\ (U16(tx, at + 3) = 0 \/ U16(tx, at + 3) > MaxPlain))
       THEN [ok |-> FALSE, done |-> FALSE, msg |-> msg, len |-> at, whole |-> FALSE]
  ELSE IF rest < 5 \/ rest < 5 + U16(tx, at + 3) THEN [ok |-> TRUE, done |-> FALSE, msg |-> msg, len |-> at, whole |-> FALSE]
  ELSE Flight(tx, at + 5 + U16(tx, at + 3), msg \o Slice(tx, at + 5, U16(tx, at + 3)))

(****************************** ServerHello ********************************)
HrrRandom == Hex("cf21ad74e59a6111be1d8c021e65b891c2a211167abb8c5e079e09e2c8a8339c")
KeyShareFaults(k) ==
  IF Len(k) < 4 THEN {"ksshort"} ELSE
  LET share == Drop(k, 4) IN
  (IF U16(k, 0) # SECP256R1 THEN {"group"} ELSE {})
  \cup (IF U16(k, 2) # Len(share) THEN {"kslen"} ELSE {})
  \cup (IF U16(k, 0) # SECP256R1 THEN {}
        ELSE IF Len(share) # 65 THEN {"sharelen"}
        ELSE IF share[1] # 4 THEN {"form"}
        ELSE IF ~OnCurve(P256, Slice(share, 1, 32), Slice(share, 33, 32)) THEN {"point"} ELSE {})
ShExtFaults(l) ==
  UNION {CASE l[i][1] = SUPPORTED_VERSIONS -> (IF Len(l[i][2]) # 2 THEN {"verlen"} ELSE IF l[i][2] # << 3, 4 >> THEN {"version"} ELSE {})
           [] l[i][1] = KEY_SHARE -> KeyShareFaults(l[i][2])
           [] l[i][1] \in KnownExtensions \ {SUPPORTED_VERSIONS, KEY_SHARE} -> {"misplaced"}
           [] OTHER -> {"unknown"} : i \in 1..Len(l)}
  \cup (IF Duplicates(l) THEN {"dup"} ELSE {})
ShSuite(b) == LET s == b[35] IN U16(b, 35 + s)
ShFaults(b, cfg) ==             \* b: the body
  IF Len(b) < 38 THEN {"short"} ELSE
  IF Slice(b, 2, 32) = HrrRandom THEN {"retry"} ELSE
  LET s == b[35]
      p == 35 + s               \* of the cipher suite
      sidf == IF s > 32 THEN {"sidlong"} ELSE IF s > 0 THEN {"sid"} ELSE {}
  IN IF Len(b) < p + 3 THEN sidf \cup {"short"}
     ELSE sidf \cup (IF ShSuite(b) \in Suites(cfg) THEN {} ELSE {"suite"})
          \cup (IF b[p + 3] = 0 THEN {} ELSE {"compression"})
          \cup (IF Len(b) < p + 5 THEN {"short", "noversion"}
                ELSE LET e == Entries(Drop(b, p + 5))
                     IN IF U16(b, p + 3) # Len(b) - p - 5 THEN {"extlen"} \cup ShExtFaults(e.list) \cup (IF e.ok THEN {} ELSE {"exttrunc"})
                        ELSE IF ~e.ok THEN {"exttrunc"} \cup ShExtFaults(e.list)
                        ELSE ShExtFaults(e.list)
                             \cup (IF SUPPORTED_VERSIONS \in ExtTypes(e.list) THEN {} ELSE {"noversion"})
                             \cup (IF KEY_SHARE \in ExtTypes(e.list) THEN {} ELSE {"noshare"})
                             \cup (IF Len(b) <= 41 THEN {"short40"} ELSE {}))
ShPoint(b) == LET k == ExtBody(Entries(Drop(b, 40)).list, KEY_SHARE)
              IN << Norm(Slice(k, 5, 32)), Norm(Slice(k, 37, 32)) >>

(************************** EncryptedExtensions ****************************)
AlpnFaults(d, cfg) ==
  IF ~SendsAlpn(cfg) THEN {"unsolicited"} \cup (IF Len(d) >= 4 /\ U16(d, 0) = Len(d) - 2 /\ NameList(Drop(d, 2)).ok THEN {} ELSE {"alpnform"})
  ELSE IF Len(d) < 4 \/ U16(d, 0) # Len(d) - 2 THEN {"alpnform"}
  ELSE LET n == NameList(Drop(d, 2))
       IN IF ~n.ok THEN {"alpnform"}
          ELSE IF Len(n.list) # 1 THEN {"alpnmany"}
          ELSE IF n.list[1] \notin OfferedNames(cfg) THEN {"notoffered"} ELSE {}
EeList(b) == IF Len(b) < 2 THEN [ok |-> FALSE, list |-> << >>] ELSE Entries(Drop(b, 2))
EeFaults(b, cfg) ==
  IF Len(b) < 2 THEN {"extlen"} ELSE
  LET e == EeList(b)  l == e.list
  IN (IF U16(b, 0) # Len(b) - 2 THEN {"extlen"} ELSE {})
     \cup (IF e.ok THEN {} ELSE {"exttrunc"})
     \cup (IF Duplicates(l) THEN {"dup"} ELSE {})
     \cup UNION {CASE l[i][1] = SERVER_NAME -> (IF SendsSni(cfg) THEN {} ELSE {"unsolicited"})
                   [] l[i][1] = SUPPORTED_GROUPS -> {}
                   [] l[i][1] = ALPN -> AlpnFaults(l[i][2], cfg)
                   [] l[i][1] \in KnownExtensions \ {SERVER_NAME, SUPPORTED_GROUPS, ALPN} -> {"misplaced"}
                   [] OTHER -> {"unknown"} : i \in 1..Len(l)}
(* Bodies that the client may, but need not, look into: server_name (empty) and supported_groups (a list) *)
EeMay(b) ==
  LET l == EeList(b).list
  IN \E i \in 1..Len(l) : \/ l[i][1] = SERVER_NAME /\ l[i][2] # << >>
                          \/ l[i][1] = SUPPORTED_GROUPS /\ ~(Len(l[i][2]) >= 4 /\ U16(l[i][2], 0) = Len(l[i][2]) - 2 /\ Len(l[i][2]) % 2 = 0)
(* The names validly selected by the block's entries *)
EeNames(b, cfg) ==
  LET l == EeList(b).list
  IN {Drop(l[i][2], 3) : i \in {j \in 1..Len(l) : l[j][1] = ALPN /\ AlpnFaults(l[j][2], cfg) = {}}}

(****************************** certificates *******************************)
(* One DER object at the front of b: [ok, tag, body, rest, grey].  grey: not the distinguished encoding. *)
DerBad == [ok |-> FALSE, tag |-> 0, body |-> << >>, rest |-> << >>, grey |-> FALSE]
Der(b) ==
  IF Len(b) < 2 \/ b[1] % 32 = 31 THEN DerBad
  ELSE IF b[2] < 128
       THEN IF Len(b) < 2 + b[2] THEN DerBad
            ELSE [ok |-> TRUE, tag |-> b[1], body |-> Slice(b, 2, b[2]), rest |-> Drop(b, 2 + b[2]), grey |-> FALSE]
  ELSE LET k == b[2] - 128 IN
       IF k > 4 \/ Len(b) < 2 + k \/ (k = 4 /\ b[3] # 0) THEN DerBad      \* (objects of 2^24 bytes do not fit into a message)
       ELSE LET n == FoldLeft(LAMBDA acc, x : 256 * acc + x, 0, Slice(b, 2, k))
            IN IF Len(b) < 2 + k + n THEN DerBad
               ELSE [ok |-> TRUE, tag |-> b[1], body |-> Slice(b, 2 + k, n), rest |-> Drop(b, 2 + k + n),
                     grey |-> k = 0 \/ n < 128 \/ b[3] = 0]

(* Results are << faults (names), grey >>. *)
Ok == << {}, FALSE >>       Grey == << {}, TRUE >>      Bad(n) == << {n}, FALSE >>
Both(a, b) == << a[1] \cup b[1], a[2] \/ b[2] >>
GreyIf(c) == IF c THEN Grey ELSE Ok

AlgCheck(o) ==
  IF ~o.ok \/ o.tag # 48 THEN Bad("parse")
  ELSE LET oid == Der(o.body)
       IN IF ~oid.ok \/ oid.tag # 6 THEN Bad("parse")
          ELSE IF oid.body # Hex("2a8648ce3d040302") THEN << {"algorithm"}, o.grey \/ oid.grey >>
          ELSE GreyIf(oid.rest # << >> \/ oid.grey)
ScalarCheck(o) ==
  IF ~o.ok \/ o.tag # 2 \/ o.body = << >> THEN Bad("signature")
  ELSE IF o.body[1] >= 128 \/ NZero(o.body) \/ ~NLt(o.body, P256.n) THEN << {"signature"}, o.grey >>
  ELSE GreyIf(o.grey \/ (Len(o.body) > 1 /\ o.body[1] = 0 /\ o.body[2] < 128))
SigCheck(o) ==
  IF ~o.ok \/ o.tag # 3 \/ o.body = << >> THEN Bad("parse")
  ELSE IF o.body[1] # 0 THEN Bad("parse")
  ELSE LET q == Der(Drop(o.body, 1))
       IN IF ~q.ok \/ q.tag # 48 THEN Bad("parse")
          ELSE LET r == Der(q.body)  s == Der(r.rest)
               IN Both(Both(ScalarCheck(r), IF r.ok THEN ScalarCheck(s) ELSE Ok),
                       GreyIf(q.grey \/ q.rest # << >> \/ (s.ok /\ s.rest # << >>)))
TimeCheck(o) == IF ~o.ok \/ o.tag \notin {23, 24} THEN Bad("parse") ELSE GreyIf(o.grey)
ValidityCheck(o) ==
  IF ~o.ok \/ o.tag # 48 THEN Bad("parse")
  ELSE LET a == Der(o.body)  b == Der(a.rest)
       IN Both(TimeCheck(a), IF a.ok THEN Both(TimeCheck(b), GreyIf(b.rest # << >>)) ELSE Ok)
VersionCheck(o) ==      \* the first object of tbsCertificate
  IF o.tag # 160 THEN Bad("version")
  ELSE LET v == Der(o.body)
       IN IF ~v.ok \/ v.tag # 2 \/ Len(v.body) # 1 THEN << {"parse", "version"}, FALSE >>
          ELSE IF v.body[1] # 2 THEN << {"version"}, o.grey \/ v.grey >> ELSE GreyIf(v.rest # << >> \/ v.grey \/ o.grey)
RECURSIVE DerList(_, _)
DerList(b, acc) == LET o == Der(b) IN IF b = << >> THEN << TRUE, acc >> ELSE IF ~o.ok THEN << FALSE, acc >> ELSE DerList(o.rest, Append(acc, o))
TbsCheck(o) ==
  IF ~o.ok \/ o.tag # 48 THEN Bad("parse")
  ELSE LET d == DerList(o.body, << >>)  l == d[2]
           f == IF Len(l) > 0 /\ l[1].tag = 160 THEN 1 ELSE 0          \* fields before the serial number
           Field(i, ok(_)) == IF Len(l) < f + i THEN Bad("parse") ELSE ok(l[f + i])
           vers == IF Len(l) = 0 THEN Bad("parse") ELSE VersionCheck(l[1])
       IN Both(vers,
          Both(Field(1, LAMBDA x : GreyIf(x.tag # 2 \/ x.grey)),
          Both(Field(2, LAMBDA x : GreyIf(AlgCheck(x) # Ok \/ x.grey)),
          Both(Field(3, LAMBDA x : GreyIf(x.tag # 48 \/ x.grey)),
          Both(Field(4, LAMBDA x : Both(ValidityCheck(x), GreyIf(x.grey))),
          Both(Field(5, LAMBDA x : GreyIf(x.tag # 48 \/ x.grey)),
          Both(Field(6, LAMBDA x : GreyIf(x.tag # 48 \/ x.grey)),
               IF ~d[1] /\ Len(l) = f + 6 THEN Bad("parse") ELSE GreyIf(o.grey \/ ~d[1] \/ Len(l) # f + 7))))))))
CertCheck(b) ==
  LET c == Der(b) IN
  IF ~c.ok \/ c.tag # 48 THEN Bad("parse")
  ELSE LET t == Der(c.body)  a == Der(t.rest)  s == Der(a.rest)
       IN IF ~t.ok THEN Bad("parse")
          ELSE Both(TbsCheck(t),
               IF ~a.ok THEN Bad("parse")
               ELSE Both(Both(AlgCheck(a), GreyIf(a.grey)), Both(SigCheck(s), GreyIf(c.grey \/ c.rest # << >> \/ (s.ok /\ s.rest # << >>)))))

(* The entries from position i on *)
(* All entries.  r: faults and greyness; extras: some entry has extensions (refusable for that reason) *)
CertEntries(b) ==
  LET Step(st) ==
        LET i == st.at  left == Len(b) - i
            End(f) == [st EXCEPT !.go = FALSE, !.r = Both(@, f)]
        IN IF left = 0 THEN End(Ok)
           ELSE IF left < 5 THEN End(Bad("list"))
           ELSE LET n == U24(b, i) IN
                IF left < 5 + n THEN End(Bad("list"))
                ELSE LET e == U16(b, i + 3 + n)
                         one == IF n = 0 THEN Bad("emptycert") ELSE CertCheck(Slice(b, i + 3, n))
                     IN IF left < 5 + n + e THEN [End(Both(one, Bad("list"))) EXCEPT !.extras = TRUE]
                        ELSE [st EXCEPT !.at = i + 5 + n + e, !.r = Both(@, one), !.extras = @ \/ e # 0]
  IN Walk(Step, [go |-> TRUE, at |-> 0, r |-> Ok, extras |-> FALSE], (Len(b) \div 5) + 1)
CertificateOutcomes(b) ==
  IF Len(b) < 1 \/ Len(b) < 1 + b[1] + 3 THEN Outcomes({CertFault("list")})
  ELSE LET c == b[1]
           list == Drop(b, 4 + c)
           walk == CertEntries(list)
           r == IF list = << >> THEN Bad("list") ELSE Both(IF U24(b, 1 + c) # Len(list) THEN Bad("list") ELSE Ok, walk.r)
       IN CertOutcomes({CertFault(n) : n \in r[1]}, r[2])
          \cup (IF c # 0 THEN Tls({IllegalParam, DecodeError}) ELSE {})
          \cup (IF walk.extras THEN Tls({DecodeError, IllegalParam, UnsupportedExtension}) ELSE {})
=============================================================================
