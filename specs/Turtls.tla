------------------------------- MODULE Turtls -------------------------------
(***************************************************************************)
(* The abstract machine: one connection object, the program that uses it,  *)
(* its transport, its random source and a server that may send anything.   *)
(*                                                                         *)
(* Bytes are abstracted to records and pieces of handshake messages; what  *)
(* a record or a message means for the client is decided by Verdicts, as   *)
(* in the byte-level trace specification.  Everything that takes time --   *)
(* sending the first flight, reading a record header, reading a body,      *)
(* sending an alert -- is a step that the transport may do in part or      *)
(* refuse.                                                                 *)
(*                                                                         *)
(* Early = TRUE:  the client may fail as soon as it is allowed to.         *)
(* Early = FALSE: it fails only when it has to, and `opt' collects the     *)
(* outcomes it passed by; then `script' (what program, transport, random   *)
(* source and server did) determines the permitted outcomes, and complete  *)
(* scripts are printed for replay into the real library.                   *)
(***************************************************************************)
EXTENDS Verdicts, Sequences, Integers, TLC, Json

CONSTANTS Messages,     \* messages of the server: [ty, v]
          Parts,        \* in which parts it may send them
          MaxPieces,    \* of messages in one record
          Specials,     \* its other records, by name
          Configs,      \* configurations the program sets
          Rngs,         \* behaviours of the random source
          Records, Faults, Ops, Attempts,   \* budgets; Faults = -1: no bound
          Early, Emit

VARIABLES cfg,          \* the configuration
          att,          \* the current or last attempt
          call, pc,     \* the call under way and its control state
          last,         \* the last report, << error, alert >>
          app,          \* the application protocol as reported
          left,         \* budgets
          script

vars == << cfg, att, call, pc, last, app, left, script >>

(***************************** configurations ******************************)
DefaultCfg == [suites |-> {"chacha", "aes"}, alpn |-> FALSE, groups |-> TRUE, sigs |-> TRUE]
CfgErrors(c) ==
  (IF c.groups /\ c.sigs THEN {} ELSE {<< ErrMissingExtensions, -1 >>})
  \cup (IF c.suites # {} THEN {} ELSE Tls({HandshakeFailure, InternalError, MissingExtension}))

(******************************** messages *********************************)
TypeOf(m) == CASE m.ty = "SH" -> SERVER_HELLO [] m.ty = "EE" -> ENCRYPTED_EXTENSIONS
               [] m.ty = "CERT" -> CERTIFICATE [] OTHER -> 20
Wrong(p, m) == TypeOf(m) # Expected(p.phase)
(* A message that announces more than the client accepts: only its beginning is ever sent. *)
Long(m) == m.v = "long"

MsgFaults(m, c) ==
  CASE m.ty = "SH" -> IF m.v \in {"chacha", "aes"} THEN (IF m.v \in c.suites THEN {} ELSE {ShFault("suite")}) ELSE {ShFault(m.v)}
    [] m.ty = "EE" -> CASE m.v = "none" -> {}
                        [] m.v \in {"first", "second"} -> IF c.alpn THEN {} ELSE {EeFault("unsolicited")}
                        [] m.v = "notoffered" -> IF c.alpn THEN {EeFault("notoffered")} ELSE {EeFault("unsolicited")}
                        [] m.v \in {"alpnform", "alpnmany"} -> {EeFault(m.v)} \cup (IF c.alpn THEN {} ELSE {EeFault("unsolicited")})
                        [] OTHER -> {EeFault(m.v)}
NameOf(m) == IF m.v \in {"first", "second"} THEN m.v ELSE ""

(********************************* records *********************************)
(* [k |-> "data", sealed, pieces] and [k |-> "special", name]; a piece is << message, part >>:
   "w" the whole message, "h1" its beginning without the length, "h4" its beginning with the length,
   "m" continues an "h1" to an "h4", "t" the rest of the message under way. *)
NoRecord == [k |-> "none"]

(* Type, length, whether the body is << 1 >>, second byte of the body *)
PlainSpecial(name) ==
  CASE name = "ccs"     -> << CCS, 1, TRUE, 0 >>
    [] name = "ccs0"    -> << CCS, 0, FALSE, 0 >>
    [] name = "ccs2"    -> << CCS, 2, FALSE, 1 >>
    [] name = "ccsbad"  -> << CCS, 1, FALSE, 0 >>
    [] name = "alert"   -> << ALERT, 2, FALSE, 40 >>
    [] name = "close"   -> << ALERT, 2, FALSE, 0 >>
    [] name = "alert99" -> << ALERT, 2, FALSE, 99 >>
    [] name = "alert1"  -> << ALERT, 1, FALSE, 0 >>
    [] name = "alert3"  -> << ALERT, 3, FALSE, 40 >>
    [] name = "app"     -> << APPDATA, 40, FALSE, 7 >>
    [] name = "app16"   -> << APPDATA, 16, FALSE, 7 >>
    [] name = "app0"    -> << APPDATA, 0, FALSE, 0 >>
    [] name = "hs0"     -> << HANDSHAKE, 0, FALSE, 0 >>
    [] name = "type24"  -> << 24, 10, FALSE, 7 >>
    [] name = "hsbig"   -> << HANDSHAKE, MaxPlain + 1, FALSE, 7 >>
    [] name = "ccsbig"  -> << CCS, MaxPlain + 1, FALSE, 7 >>
    [] name = "appbig"  -> << APPDATA, MaxCipher, FALSE, 7 >>
    [] name = "apphuge" -> << APPDATA, MaxCipher + 1, FALSE, 7 >>
    [] name = "24huge"  -> << 24, MaxCipher + 1, FALSE, 7 >>
(* Under protection: inner type, content length, second byte, length of content, type and padding *)
SealedSpecial(name) ==
  CASE name = "ealert"   -> << ALERT, 2, 40, 3 >>
    [] name = "eclose"   -> << ALERT, 2, 0, 3 >>
    [] name = "ealert99" -> << ALERT, 2, 99, 3 >>
    [] name = "ealert1"  -> << ALERT, 1, 0, 2 >>
    [] name = "ealert3"  -> << ALERT, 3, 40, 4 >>
    [] name = "ealertpad" -> << ALERT, 2, 47, 300 >>
    [] name = "eccs"     -> << CCS, 1, 0, 2 >>
    [] name = "eapp"     -> << APPDATA, 5, 0, 6 >>
    [] name = "ehs0"     -> << HANDSHAKE, 0, 0, 1 >>
    [] name = "epad"     -> << 0, 0, 0, 9 >>
    [] name = "e24"      -> << 24, 5, 0, 6 >>
    [] name = "ebig"     -> << HANDSHAKE, MaxPlain + 1, 0, MaxPlain + 2 >>
    [] name = "eover"    -> << ALERT, 2, 47, MaxPlain + 100 >>
SealedNames == {"ealert", "eclose", "ealert99", "ealert1", "ealert3", "ealertpad", "eccs", "eapp", "ehs0", "epad", "e24", "ebig", "eover"}
(* Records that need the keys but do not authenticate *)
ForgedNames == {"tamper", "replay", "reorder", "otherkey"}

Header(r) ==    \* << type, length >> as sent
  IF r.k = "data" THEN << IF r.sealed THEN APPDATA ELSE HANDSHAKE, 200 >>
  ELSE IF r.name \in SealedNames THEN << APPDATA, SealedSpecial(r.name)[4] + 16 >>
  ELSE IF r.name \in ForgedNames THEN << APPDATA, 60 >>
  ELSE << PlainSpecial(r.name)[1], PlainSpecial(r.name)[2] >>
Authentic(r) == (r.k = "data" /\ r.sealed) \/ (r.k = "special" /\ r.name \in SealedNames)

RecordVerdict(p, r) ==
  LET h == Header(r) IN
  IF p.prot
  THEN IF r.k = "data" /\ r.sealed THEN ProtVerdict(h[1], h[2], FALSE, TRUE, HANDSHAKE, h[2] - 17, 0, h[2] - 16)
       ELSE IF r.k = "data" THEN ProtVerdict(h[1], h[2], FALSE, FALSE, 0, 0, 0, 0)
       ELSE IF r.name \in SealedNames THEN LET x == SealedSpecial(r.name) IN ProtVerdict(h[1], h[2], FALSE, TRUE, x[1], x[2], x[3], x[4])
       ELSE ProtVerdict(h[1], h[2], r.name = "ccs", FALSE, 0, 0, 0, 0)
  ELSE IF r.k = "data" THEN PlainVerdict(h[1], h[2], FALSE, 0)
       ELSE LET x == PlainSpecial(r.name) IN PlainVerdict(x[1], x[2], x[3], x[4])

(* What the client knows about its peer.  buf: the message under way; open: how much of it is there;
   seen: the messages accepted, with whether each of their pieces was authentic. *)
FreshPeer == [phase |-> "sh", buf |-> << >>, clean |-> TRUE, prot |-> FALSE, name |-> "", seen |-> << >>]

(* The pieces of one record; auth: it was authentic.  Result: [p, must, may]. *)
RECURSIVE Feed(_, _, _, _, _)
Feed(p, pieces, auth, may, c) ==
  IF pieces = << >> THEN [p |-> p, must |-> {}, may |-> may] ELSE
  LET m == pieces[1][1]   part == pieces[1][2]   rest == Tail(pieces)
      clean == (IF p.buf = << >> THEN TRUE ELSE p.clean) /\ auth
      wrong == Wrong(p, m)
      wt == IF wrong THEN Tls(WrongType.alerts) ELSE {}
      fail(out) == [p |-> p, must |-> out, may |-> may]
  IN IF part \in {"h4", "m"} /\ Long(m) THEN fail(Tls(TooLong) \cup wt)
     ELSE IF part \in {"h1", "h4", "m"} THEN Feed([p EXCEPT !.buf = << m >>, !.clean = clean], rest, auth, may \cup wt, c)
     ELSE IF wrong THEN fail(wt)
     ELSE CASE p.phase = "sh" ->
               LET f == MsgFaults(m, c) \cup (IF rest = << >> THEN {} ELSE {LeftoverAtKeyChange})
               IN IF f # {} THEN fail(Outcomes(f))
                  ELSE [p |-> [p EXCEPT !.phase = "ee", !.buf = << >>, !.prot = TRUE, !.seen = Append(@, << m, clean >>)], must |-> {}, may |-> may]
            [] p.phase = "ee" ->
               LET f == MsgFaults(m, c)
               IN IF f # {} THEN fail(Outcomes(f))
                  ELSE Feed([p EXCEPT !.phase = "cert", !.buf = << >>, !.name = NameOf(m), !.seen = Append(@, << m, clean >>)], rest, auth, may, c)
            [] p.phase = "cert" ->
               fail(CertOutcomes(IF m.v = "good" THEN {} ELSE {CertFault(m.v)}, FALSE))

Judge(p, r, c) ==
  LET v == RecordVerdict(p, r) IN
  IF v.must # {} THEN [p |-> p, must |-> v.must, may |-> v.may]
  ELSE IF v.act = "data" /\ r.k = "data" THEN Feed(p, r.pieces, Authentic(r), v.may, c)
  ELSE [p |-> p, must |-> {}, may |-> v.may]

(******************************** the server *******************************)
(* Sequences of pieces it can put in a record when message `b' (a sequence of at most one) is under way; parts: how
   much of that was sent. *)
Whole == {<< m, "w" >> : m \in {x \in Messages : ~Long(x)}}
Heads == {<< m, q >> : m \in Messages, q \in Parts \cap {"h1", "h4"}}
RECURSIVE Runs(_)
Runs(n) == IF n = 0 THEN {<< >>} ELSE {<< >>} \cup {<< w >> \o x : w \in Whole, x \in Runs(n - 1)}
Starts(n) == (IF n = 0 THEN {} ELSE {x \in Runs(n) : x # << >>} \cup {x \o << h >> : x \in Runs(n - 1), h \in Heads})
PieceLists(b, h) ==
  IF b = << >> THEN Starts(MaxPieces)
  ELSE (IF h = "h1" THEN {<< << b[1], "m" >> >>} ELSE {})
       \cup (IF Long(b[1]) THEN {} ELSE {<< << b[1], "t" >> >>} \cup {<< << b[1], "t" >> >> \o x : x \in Starts(MaxPieces - 1)})
Choices(a) ==
  {[k |-> "data", sealed |-> a.p.prot, pieces |-> x] : x \in PieceLists(a.p.buf, a.open)}
  \cup (IF a.p.prot /\ "unsealed" \in Specials THEN {[k |-> "data", sealed |-> FALSE, pieces |-> x] : x \in PieceLists(a.p.buf, a.open)} ELSE {})
  \cup {[k |-> "special", name |-> n] : n \in {n \in Specials \ {"unsealed"} : n \in SealedNames \cup ForgedNames => a.p.prot}}

(******************************** the client *******************************)
(* fl: how much of the first flight is sent (2: all); wire: the record being read; got: how much of it (0 nothing, 1 part
   of the header, 2 the header, 3 part of the body); open: the part of the message under way that came last;
   alerts, closes, cut: what was done at the end; pend: the outcome to report; n: records received. *)
FreshAttempt == [live |-> FALSE, cfg |-> DefaultCfg, drawn |-> FALSE, fl |-> 0, p |-> FreshPeer, wire |-> NoRecord, got |-> 0, open |-> "w",
                 alerts |-> 0, closes |-> 0, pend |-> << -1, -1 >>, opt |-> {}, hist |-> << >>]

Note(x) == script' = IF Emit THEN Append(script, x) ELSE script
Quiet == script' = script
CanFault == left.io # 0
Spend == left' = [left EXCEPT !.io = IF @ > 0 THEN @ - 1 ELSE @]

Init == /\ cfg = DefaultCfg /\ att = FreshAttempt /\ call = "none" /\ pc = "idle" /\ last = << -1, -1 >> /\ app = ""
        /\ left = [io |-> Faults, recs |-> Records, ops |-> Ops, atts |-> Attempts] /\ script = << >>

(* The program *)
Connect ==
  /\ pc = "idle" /\ left.ops > 0 /\ (att.live \/ left.atts > 0)
  /\ call' = "connect"
  /\ IF att.live
     THEN /\ UNCHANGED att /\ pc' = (IF att.fl < 2 THEN "write" ELSE "read")
          /\ left' = [left EXCEPT !.ops = @ - 1] /\ Note(<< "resume" >>)
     ELSE /\ att' = [FreshAttempt EXCEPT !.live = TRUE, !.cfg = cfg] /\ pc' = "draw"
          /\ left' = [left EXCEPT !.ops = @ - 1, !.atts = @ - 1] /\ Note(<< "start" >>)
  /\ UNCHANGED << cfg, last, app >>
Close ==
  /\ pc = "idle" /\ left.ops > 0
  /\ left' = [left EXCEPT !.ops = @ - 1]
  /\ IF att.live THEN call' = "close" /\ pc' = "clalert" /\ UNCHANGED app
     ELSE UNCHANGED << call, pc >> /\ app' \in {app, ""}
  /\ Note(<< "close", att.live, att.opt >>)
  /\ UNCHANGED << cfg, att, last >>
Configure ==
  /\ pc = "idle" /\ left.ops > 0
  /\ \E c \in Configs \ {cfg} : cfg' = c /\ Note(<< "cfg", c >>)
  /\ left' = [left EXCEPT !.ops = @ - 1]
  /\ UNCHANGED << att, call, pc, last, app >>
Free ==     \* once nothing else is left to be done
  /\ pc = "idle" /\ (left.ops = 0 \/ (left.atts = 0 /\ ~att.live))
  /\ pc' = "freed" /\ UNCHANGED << cfg, att, call, last, app, left, script >>
  /\ IF Emit THEN PrintT(<< "SCRIPT", ToJson([script |-> script, suspended |-> att.live, opt |-> att.opt]) >>) ELSE TRUE

(* Returns *)
Return(err) ==
  /\ call' = "none" /\ pc' = "idle" /\ last' = err
  /\ app' = att.p.name

(* Randomness *)
RngErrors(r) == CASE r = "ok" -> {} [] r \in {"fail1", "fail2"} -> {<< ErrRng, -1 >>} [] r = "zero" -> {<< ErrPrivKeyIsZero, -1 >>}
Draw ==
  /\ pc = "draw"
  /\ \E r \in Rngs :
       LET e == CfgErrors(att.cfg) \cup RngErrors(r) IN
       IF e = {} THEN /\ pc' = "write" /\ att' = [att EXCEPT !.drawn = TRUE] /\ Note(<< "rng", r >>)
       ELSE \E o \in IF Emit THEN {CHOOSE x \in e : TRUE} ELSE e : \E k \in IF Emit THEN {0} ELSE {0, 1} :
            /\ pc' = "return" /\ att' = [att EXCEPT !.pend = o, !.closes = k] /\ Note(<< "rng", r, e >>)
  /\ UNCHANGED << cfg, call, last, app, left >>

(* The first flight *)
WriteAll  == pc = "write" /\ att' = [att EXCEPT !.fl = 2] /\ pc' = "read" /\ UNCHANGED << cfg, call, last, app, left >> /\ Quiet
WritePart == pc = "write" /\ CanFault /\ att.fl = 0 /\ att' = [att EXCEPT !.fl = 1] /\ Spend /\ Note(<< "wpart" >>) /\ UNCHANGED << cfg, call, pc, last, app >>
WriteFail == pc = "write" /\ CanFault /\ Spend /\ Note(<< "wfail" >>) /\ Return(<< ErrWantWrite, -1 >>) /\ UNCHANGED << cfg, att >>

(* Reading *)
NothingToRead == att.wire # NoRecord /\ att.got >= 2 /\ Header(att.wire)[2] = 0
Send ==
  /\ pc = "read" /\ att.wire = NoRecord /\ left.recs > 0
  /\ \E r \in Choices(att) : att' = [att EXCEPT !.wire = r, !.got = 0] /\ Note(<< "rec", r >>)
  /\ left' = [left EXCEPT !.recs = @ - 1]
  /\ UNCHANGED << cfg, call, pc, last, app >>
ReadFail ==     \* also when the server has nothing to send
  /\ pc = "read"
  /\ ~NothingToRead
  /\ IF att.wire = NoRecord /\ left.recs = 0 THEN left' = left ELSE CanFault /\ Spend
  /\ Note(<< "rfail", att.wire # NoRecord, att.got >>) /\ Return(<< ErrWantRead, -1 >>) /\ UNCHANGED << cfg, att >>
ReadPart ==
  /\ pc = "read" /\ att.wire # NoRecord /\ CanFault /\ att.got \in {0, 2} /\ ~NothingToRead
  /\ att' = [att EXCEPT !.got = @ + 1] /\ Spend /\ Note(<< "rpart", TRUE, att.got >>) /\ UNCHANGED << cfg, call, pc, last, app >>
(* The client fails with one of `out', or (out = {}) goes on as `a', or fails with one of `may' *)
Decide(a, out, may) ==
  IF out # {}
  THEN \E o \in IF Early THEN out \cup may ELSE {CHOOSE x \in out : TRUE} :
       /\ att' = [a EXCEPT !.pend = o] /\ pc' = (IF o[1] = ErrTls THEN "alert" ELSE "shut")
       /\ Note(<< "out", out \cup may \cup att.opt >>)
  ELSE \/ /\ att' = [a EXCEPT !.opt = IF Early THEN @ ELSE @ \cup may] /\ pc' = "read" /\ Quiet
       \/ /\ Early /\ \E o \in may : att' = [a EXCEPT !.pend = o] /\ pc' = (IF o[1] = ErrTls THEN "alert" ELSE "shut")
          /\ Quiet
ReadHeader ==
  /\ pc = "read" /\ att.wire # NoRecord /\ att.got < 2
  /\ LET h == Header(att.wire) IN
     IF HeaderRefused(att.p.prot, h[1], h[2]) THEN Decide(att, RecordVerdict(att.p, att.wire).must, {})
     ELSE Decide([att EXCEPT !.got = 2], {}, HeaderMay(att.p.prot, h[1], h[2]))
  /\ UNCHANGED << cfg, call, last, app, left >>
ReadBody ==
  /\ pc = "read" /\ att.wire # NoRecord /\ att.got >= 2
  /\ LET j == Judge(att.p, att.wire, att.cfg)
         r == att.wire
     IN Decide([att EXCEPT !.p = j.p, !.wire = NoRecord, !.got = 0, !.hist = IF Emit THEN @ ELSE Append(@, r),
                           !.open = IF r.k = "data" THEN r.pieces[Len(r.pieces)][2] ELSE @],
               j.must, j.may)
  /\ UNCHANGED << cfg, call, last, app, left >>

(* The end of an attempt *)
AlertAll  == pc = "alert" /\ att' = [att EXCEPT !.alerts = @ + 1] /\ pc' = "shut" /\ Quiet /\ UNCHANGED << cfg, call, last, app, left >>
AlertCut  == pc = "alert" /\ CanFault /\ pc' = "shut" /\ Spend /\ Note(<< "afail" >>) /\ UNCHANGED << cfg, att, call, last, app >>
Shut      == pc = "shut" /\ att' = [att EXCEPT !.closes = @ + 1] /\ pc' = "return" /\ Quiet /\ UNCHANGED << cfg, call, last, app, left >>
Report ==
  /\ pc = "return" /\ call' = "none" /\ pc' = "idle"
  /\ att' = [att EXCEPT !.live = FALSE]
  /\ last' = (IF call = "connect" THEN att.pend ELSE last)
  /\ app' \in (IF call = "connect" THEN {att.p.name} ELSE {app, ""})
  /\ Quiet /\ UNCHANGED << cfg, left >>
CloseAlert ==
  /\ pc = "clalert"
  /\ \/ att.fl = 2 /\ att' = [att EXCEPT !.alerts = @ + 1] /\ UNCHANGED left /\ Quiet
     \/ att.fl = 2 /\ CanFault /\ UNCHANGED att /\ Spend /\ Note(<< "afail" >>)
     \/ att.fl < 2 /\ UNCHANGED << att, left >> /\ Quiet
     \/ att.fl = 0 /\ ~Emit /\ att' = [att EXCEPT !.alerts = @ + 1] /\ UNCHANGED left /\ Quiet
  /\ pc' = "shut" /\ UNCHANGED << cfg, call, last, app >>

ClientOrIo == Draw \/ WriteAll \/ WritePart \/ WriteFail \/ Send \/ ReadFail \/ ReadPart \/ ReadHeader \/ ReadBody
              \/ AlertAll \/ AlertCut \/ Shut \/ Report \/ CloseAlert
Next == Connect \/ Close \/ Configure \/ Free \/ ClientOrIo
Spec == Init /\ [][Next]_vars /\ WF_vars(ClientOrIo)

(******************************* properties ********************************)
Ended == pc = "idle" /\ ~att.live

(* C02: once there are keys, nothing that was not authenticated is acted upon. *)
OnlyAuthentic == /\ \A i \in 2..Len(att.p.seen) : att.p.seen[i][2]
                 /\ (att.p.prot /\ att.p.buf # << >> => att.p.clean)
(* C03: the accepted messages are a beginning of the one order there is. *)
Order == /\ Len(att.p.seen) <= 2
         /\ (Len(att.p.seen) >= 1 => att.p.seen[1][1].ty = "SH")
         /\ (Len(att.p.seen) >= 2 => att.p.seen[2][1].ty = "EE")
         /\ (att.p.phase = "cert") = (Len(att.p.seen) = 2)
(* C04: keys only with a suite that was offered. *)
OfferedSuite == att.p.prot => att.p.seen[1][1].v \in att.cfg.suites
(* C05: what the client knows depends on the records alone, however they were cut up. *)
RECURSIVE Replay(_, _, _)
Replay(p, h, c) == IF h = << >> THEN p ELSE Replay(Judge(p, h[1], c).p, Tail(h), c)
CutsDoNotMatter == Emit \/ att.p = Replay(FreshPeer, att.hist, att.cfg)
(* C08: an attempt that goes on has sent no alert and closed nothing; one that has ended has sent at most one alert
   -- none after an alert of the peer -- and closed at most once, exactly once after anything was sent. *)
OneEnd == /\ att.alerts <= 1 /\ att.closes <= 1
          /\ (pc \in {"idle", "read", "write"} /\ att.live => att.alerts = 0 /\ att.closes = 0)
          /\ (Ended /\ att.fl = 2 => att.closes = 1)
          /\ (Ended /\ att.pend[1] = ErrTlsPeer => att.alerts = 0)
          /\ (Ended /\ att.pend[1] \in {ErrRng, ErrPrivKeyIsZero, ErrMissingExtensions} => att.alerts = 0 /\ att.fl = 0)
EveryCause == Ended /\ att.pend[1] = ErrTls => att.pend[2] \in KnownAlerts
(* C08: want-read and want-write are told apart by what is left to do. *)
Wants == /\ (last[1] = ErrWantRead /\ att.live /\ pc = "idle" => att.fl = 2)
         /\ (last[1] = ErrWantWrite /\ att.live /\ pc = "idle" => att.fl < 2)
(* C09: an attempt begins with nothing of the one before it. *)
Fresh == pc = "draw" => att = [FreshAttempt EXCEPT !.live = TRUE, !.cfg = cfg]
(* C10: only names that were offered. *)
OfferedName == pc = "idle" /\ app # "" => att.cfg.alpn
OfferedNow == att.p.name # "" => att.cfg.alpn
(* C12: no server is authenticated, so no attempt ends but by failing. *)
NoSuccess == last[1] # -1 => last[1] \in 0..6
(* C14: nothing is sent without randomness. *)
Drawn == att.fl > 0 => att.drawn
(* C16: no call is ever in two places. *)
Calls == (call = "none") = (pc \in {"idle", "freed"})

(* C01, C05: every call comes to an end. *)
CallsEnd == (call # "none") ~> (call = "none")
=============================================================================
