------------------------------ MODULE Verdicts ------------------------------
(***************************************************************************)
(* What the client must, may and must not do with each thing a server can  *)
(* send, independently of how it is spelled in bytes.  The abstract        *)
(* machine (Turtls) and the byte-level trace specification (TurtlsTrace)   *)
(* both take every decision from here.                                     *)
(*                                                                         *)
(* An outcome is << class, alert >>: class 0 is a failure the client       *)
(* reports to its peer with that alert, class 1 is an alert of the peer.   *)
(* A fault is [cat, alerts]: the property it concerns and the alerts that  *)
(* describe it.  RFC 8446 sometimes allows several.                        *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

(* Alerts *)
CloseNotify == 0            UnexpectedMessage == 10     BadRecordMac == 20
RecordOverflow == 22        HandshakeFailure == 40      BadCert == 42
UnsupportedCert == 43       CertUnknown == 46           IllegalParam == 47
UnknownCa == 48             DecodeError == 50           ProtocolVersion == 70
InternalError == 80         MissingExtension == 109     UnsupportedExtension == 110

KnownAlerts == {0, 10, 20, 22, 40, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 70, 71, 80, 86, 90,
                109, 110, 112, 113, 115, 116, 120}
(* How a peer's alert is reported; codes unknown to the interface have no name. *)
Reported(code) == IF code \in KnownAlerts THEN code ELSE InternalError

(* Errors of the interface *)
ErrTls == 0  ErrTlsPeer == 1  ErrRng == 2  ErrWantRead == 3  ErrWantWrite == 4
ErrPrivKeyIsZero == 5  ErrMissingExtensions == 6

Fault(cat, alerts) == [cat |-> cat, alerts |-> alerts]
Tls(alerts) == {<< ErrTls, a >> : a \in alerts}
Peer(code)  == {<< ErrTlsPeer, Reported(code) >>}
Outcomes(faults) == UNION {Tls(f.alerts) : f \in faults}

(* Content types *)
CCS == 20  ALERT == 21  HANDSHAKE == 22  APPDATA == 23
MaxPlain == 16384           (* TLSPlaintext.length *)
MaxCipher == 16640          (* TLSCiphertext.length *)
MinCipher == 17             (* tag and content type *)
MaxMessage == 131072        (* the client's limit for a handshake message with its header *)

(* Handshake message types, in the order in which the client expects them *)
SERVER_HELLO == 2  ENCRYPTED_EXTENSIONS == 8  CERTIFICATE == 11
Expected(phase) == CASE phase = "sh" -> SERVER_HELLO
                     [] phase = "ee" -> ENCRYPTED_EXTENSIONS
                     [] phase = "cert" -> CERTIFICATE

(***************************************************************************)
(* Records.  A verdict is [must, may, act]: `must' is the set of outcomes   *)
(* one of which has to follow (empty: none), `may' the outcomes that are    *)
(* tolerated, `act' what the record means if the client goes on:           *)
(* "data" -- handshake bytes, "skip" -- nothing.                            *)
(***************************************************************************)
Go(act) == [must |-> {}, may |-> {}, act |-> act, cat |-> "C11"]
Refuse(cat, alerts) == [must |-> Tls(alerts), may |-> {}, act |-> "skip", cat |-> cat]

AlertVerdict(n, code) ==
  IF n < 2 THEN Refuse("C11", {DecodeError, UnexpectedMessage, IllegalParam})
  ELSE [must |-> Peer(code) \cup (IF n > 2 THEN Tls({DecodeError, UnexpectedMessage, IllegalParam}) ELSE {}),
        may |-> {}, act |-> "skip", cat |-> "C08"]

(* isOne: the body is the single byte 1; code: the second byte of the body *)
CcsVerdict(n, isOne) ==
  IF isOne THEN Go("skip") ELSE Refuse("C03", {UnexpectedMessage} \cup (IF n = 0 THEN {DecodeError} ELSE {}))

PlainVerdict(t, n, isOne, code) ==
  CASE t \in {CCS, ALERT, HANDSHAKE} /\ n > MaxPlain -> Refuse("C11", {RecordOverflow})
    [] t \notin {CCS, ALERT, HANDSHAKE} ->
         Refuse("C03", {UnexpectedMessage} \cup (IF n > MaxPlain THEN {RecordOverflow} ELSE {}))
    [] t = CCS -> CcsVerdict(n, isOne)
    [] t = ALERT -> AlertVerdict(n, code)
    [] t = HANDSHAKE /\ n = 0 ->
         [Go("skip") EXCEPT !.may = Tls({UnexpectedMessage, IllegalParam, DecodeError})]
    [] OTHER -> Go("data")

(* A record after the keys are installed.  opens: it authenticates; then
   it, n_, code describe its content: inner type (0: nothing but padding), content length, second content byte;
   total: the length of content, type and padding. *)
ProtVerdict(t, n, isOne, opens, it, n_, code, total) ==
  CASE t = CCS /\ n > MaxPlain -> Refuse("C11", {RecordOverflow, UnexpectedMessage})
    [] t = CCS -> CcsVerdict(n, isOne)
    [] t # APPDATA -> Refuse("C02", {UnexpectedMessage} \cup (IF n > MaxPlain THEN {RecordOverflow} ELSE {}))
    [] t = APPDATA /\ n > MaxCipher -> Refuse("C11", {RecordOverflow})
    [] t = APPDATA /\ n < MinCipher -> Refuse("C02", {DecodeError, BadRecordMac, UnexpectedMessage})
    [] ~opens -> Refuse("C02", {BadRecordMac})
    [] it = 0 -> Refuse("C11", {UnexpectedMessage})
    [] n_ > MaxPlain -> Refuse("C11", {RecordOverflow})
    [] OTHER ->
         LET v == CASE it = ALERT -> AlertVerdict(n_, code)
                    [] it = HANDSHAKE /\ n_ = 0 -> Refuse("C11", {UnexpectedMessage})
                    [] it = HANDSHAKE -> Go("data")
                    [] OTHER -> Refuse("C03", {UnexpectedMessage})
         IN IF total > MaxPlain + 1 THEN [v EXCEPT !.may = @ \cup Tls({RecordOverflow})] ELSE v

(* What the header alone already allows (FALSE) or requires (TRUE) the client to refuse. *)
HeaderRefused(prot, t, n) == n > MaxCipher \/ (t # APPDATA /\ n > MaxPlain)
HeaderMay(prot, t, n) ==
  IF prot
  THEN IF t \notin {CCS, APPDATA} THEN Tls({UnexpectedMessage})
       ELSE IF t = CCS /\ n # 1 THEN CcsVerdict(n, FALSE).must
       ELSE IF t = APPDATA /\ n < MinCipher THEN Tls({DecodeError, BadRecordMac, UnexpectedMessage}) ELSE {}
  ELSE IF t \notin {CCS, ALERT, HANDSHAKE}
       THEN Tls({UnexpectedMessage} \cup (IF n > MaxPlain THEN {RecordOverflow} ELSE {}))
       ELSE IF t = CCS /\ n # 1 THEN CcsVerdict(n, FALSE).must
       ELSE IF t = ALERT /\ n < 2 THEN AlertVerdict(n, 0).must ELSE {}

(***************************************************************************)
(* Handshake message headers: have = the bytes collected so far, type and   *)
(* length as far as they are known.                                        *)
(***************************************************************************)
TooLong == {DecodeError, IllegalParam, RecordOverflow, InternalError, UnexpectedMessage}
WrongType == Fault("C03", {UnexpectedMessage})
(* A message longer than the limit; header and body together (4 + len). *)
MustRefuseLength(len) == len > MaxMessage
MayRefuseLength(len) == 4 + len > MaxMessage

LeftoverAtKeyChange == Fault("C02", {UnexpectedMessage})

(***************************************************************************)
(* Faults of ServerHello (C04, C15), EncryptedExtensions (C10, C15) and     *)
(* Certificate (C13).                                                      *)
(***************************************************************************)
ShFault(name) ==
  CASE name = "short"        -> Fault("C04", {DecodeError})
    [] name = "short40"      -> Fault("C04", {DecodeError, ProtocolVersion, MissingExtension})
    [] name = "retry"        -> Fault("C04", {UnexpectedMessage, HandshakeFailure, IllegalParam, DecodeError, ProtocolVersion,
                                              InternalError, MissingExtension, UnsupportedExtension})
    [] name = "sidlong"      -> Fault("C04", {DecodeError, IllegalParam})
    [] name = "sid"          -> Fault("C04", {IllegalParam, DecodeError})
    [] name = "suite"        -> Fault("C04", {IllegalParam, HandshakeFailure})
    [] name = "compression"  -> Fault("C04", {IllegalParam, DecodeError})
    [] name = "extlen"       -> Fault("C15", {DecodeError})
    [] name = "exttrunc"     -> Fault("C15", {DecodeError})
    [] name = "dup"          -> Fault("C15", {IllegalParam, DecodeError})
    [] name = "unknown"      -> Fault("C15", {UnsupportedExtension})
    [] name = "misplaced"    -> Fault("C15", {UnsupportedExtension, IllegalParam})
    [] name = "verlen"       -> Fault("C15", {DecodeError})
    [] name = "version"      -> Fault("C04", {ProtocolVersion, IllegalParam})
    [] name = "noversion"    -> Fault("C04", {ProtocolVersion, MissingExtension})
    [] name = "ksshort"      -> Fault("C15", {DecodeError})
    [] name = "kslen"        -> Fault("C15", {DecodeError})
    [] name = "group"        -> Fault("C04", {IllegalParam, HandshakeFailure, DecodeError})
    [] name = "sharelen"     -> Fault("C04", {IllegalParam, DecodeError})
    [] name = "form"         -> Fault("C04", {IllegalParam})
    [] name = "point"        -> Fault("C04", {IllegalParam})
    [] name = "noshare"      -> Fault("C04", {MissingExtension})
ShFaultNames == {"short", "short40", "retry", "sidlong", "sid", "suite", "compression", "extlen", "exttrunc", "dup", "unknown",
                 "misplaced", "verlen", "version", "noversion", "ksshort", "kslen", "group", "sharelen", "form", "point", "noshare"}

EeFault(name) ==
  CASE name = "extlen"      -> Fault("C15", {DecodeError})
    [] name = "exttrunc"    -> Fault("C15", {DecodeError})
    [] name = "dup"         -> Fault("C15", {IllegalParam, DecodeError})
    [] name = "unknown"     -> Fault("C15", {UnsupportedExtension})
    [] name = "misplaced"   -> Fault("C15", {UnsupportedExtension, IllegalParam})
    [] name = "unsolicited" -> Fault("C10", {UnsupportedExtension})
    [] name = "alpnform"    -> Fault("C10", {DecodeError})
    [] name = "alpnmany"    -> Fault("C10", {DecodeError, IllegalParam})
    [] name = "notoffered"  -> Fault("C10", {IllegalParam})
EeFaultNames == {"extlen", "exttrunc", "dup", "unknown", "misplaced", "unsolicited", "alpnform", "alpnmany", "notoffered"}

CertFault(name) ==
  CASE name = "list"        -> Fault("C13", {DecodeError})
    [] name = "emptycert"   -> Fault("C13", {DecodeError, BadCert})
    [] name = "parse"       -> Fault("C13", {BadCert})
    [] name = "signature"   -> Fault("C13", {BadCert})
    [] name = "version"     -> Fault("C13", {UnsupportedCert})
    [] name = "algorithm"   -> Fault("C13", {UnsupportedCert})
CertFaultNames == {"list", "emptycert", "parse", "signature", "version", "algorithm"}
(* No server can be authenticated yet: a well-formed certificate is refused, too. *)
CertRefused == {CertUnknown, UnknownCa}
(* Deviations from DER, or in fields that the client need not interpret: any of these. *)
CertGrey == {BadCert, UnsupportedCert, CertUnknown, UnknownCa}
CertOutcomes(faults, grey) ==
  IF faults = {} THEN Tls(IF grey THEN CertGrey ELSE CertRefused)
  ELSE Outcomes(faults) \cup (IF grey THEN Tls({BadCert, UnsupportedCert}) ELSE {})
=============================================================================
