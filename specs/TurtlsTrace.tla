---------------------------- MODULE TurtlsTrace ----------------------------
(***************************************************************************)
(* Judges recorded executions of libturtls against the specification.      *)
(*                                                                         *)
(* A trace is the list of everything that crossed the C interface while a  *)
(* program used one connection object: calls and returns, random draws,    *)
(* and each use of the read, write and close callbacks with its bytes.     *)
(* The specification follows the trace; every event must be one that the   *)
(* specification allows.  It derives by itself what the records mean (it   *)
(* finds the client's private key among the drawn random bytes, runs the   *)
(* key schedule, opens the records, parses the messages) and what the      *)
(* client has to do about them (module Verdicts).                          *)
(*                                                                         *)
(* Each trace is one behaviour; the last step prints ACCEPT or REJECT.     *)
(***************************************************************************)
EXTENDS Tls13, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid,      \* the trace
          pos,      \* number of events consumed
          s,        \* what is known about the connection object
          verdict   \* "" while the trace is allowed, else "ACCEPT" or a reason

(* What the client knows of the current attempt's peer.  phase: the message
   it waits for; buf: bytes of an incomplete message; in: bytes of an
   incomplete record; must, may: outcomes (see Verdicts); cats: the
   properties that the obligations stem from; names: the possible values of
   the application protocol. *)
NoKeys == [suite |-> 0, server |-> [key |-> << >>, iv |-> << >>], client |-> [key |-> << >>, iv |-> << >>]]
FreshPeer == [phase |-> "sh", in |-> << >>, buf |-> << >>, prot |-> FALSE, keys |-> NoKeys, seq |-> 0,
              must |-> {}, may |-> {}, cats |-> {}, names |-> {<< >>}, either |-> FALSE]
NoFlight == [done |-> FALSE, len |-> 0, msg |-> << >>, key |-> << >>]
FreshAttempt == [tx |-> << >>, draws |-> << >>, drawfail |-> FALSE, flight |-> NoFlight, peer |-> FreshPeer,
                 closes |-> 0, wfail |-> FALSE, last |-> ""]
(* The connection object.  live: an attempt is suspended; mark: what the
   current attempt had sent when the current call began; outs: the outcomes
   and output of the attempts that have ended; left: the memory that each
   object of the process left behind when it was freed. *)
Start == [cfg |-> DefaultCfg, acfg |-> DefaultCfg, live |-> FALSE, call |-> "", att |-> FreshAttempt,
          err |-> -1, al |-> -1, names |-> {<< >>}, io |-> 0, mark |-> 0, outs |-> << >>, left |-> << >>]

(***************************** the peer's bytes ****************************)
(* Message bytes have arrived; acfg: the attempt's configuration; ch, key: the ClientHello and the private key. *)
RECURSIVE Messages(_, _, _, _)
Messages(p, acfg, ch, key) ==
  IF p.must # {} \/ p.buf = << >> THEN p ELSE
  LET b == p.buf
      wrong == b[1] # Expected(p.phase)
      len == IF Len(b) >= 4 THEN U24(b, 1) ELSE 0
      whole == Len(b) >= 4 /\ Len(b) >= 4 + len
      body == Slice(b, 4, len)
      rest == Drop(b, 4 + len)
      early == [p EXCEPT !.may = @ \cup (IF wrong THEN Tls(WrongType.alerts) ELSE {})
                                    \cup (IF Len(b) >= 4 /\ MayRefuseLength(len) THEN Tls(TooLong) ELSE {})]
  IN IF Len(b) >= 4 /\ MustRefuseLength(len)
     THEN [early EXCEPT !.must = Tls(TooLong) \cup (IF wrong THEN Tls(WrongType.alerts) ELSE {}), !.cats = {"C11"} \cup (IF wrong THEN {"C03"} ELSE {})]
     ELSE IF ~whole THEN early
     ELSE IF wrong THEN [early EXCEPT !.must = Tls(WrongType.alerts), !.cats = {"C03"}]
     ELSE CASE p.phase = "sh" ->
               LET f == {ShFault(n) : n \in ShFaults(body, acfg)} \cup (IF rest = << >> THEN {} ELSE {LeftoverAtKeyChange})
                   suite == ShSuite(body)
                   dh == ScalarMul(P256, key, ShPoint(body))
               IN IF f # {} THEN [early EXCEPT !.must = Outcomes(f), !.cats = {x.cat : x \in f}, !.either = (rest # << >>)]
                  ELSE [early EXCEPT !.phase = "ee", !.buf = << >>, !.prot = TRUE,
                                     !.keys = HandshakeKeys(suite, NFix(dh[1], 32), ch \o Take(b, 4 + len))]
            [] p.phase = "ee" ->
               LET f == {EeFault(n) : n \in EeFaults(body, acfg)}
                   q == [early EXCEPT !.may = @ \cup (IF EeMay(body) THEN Tls({DecodeError, IllegalParam}) ELSE {})]
               IN IF f # {} THEN [q EXCEPT !.must = Outcomes(f) \cup q.may, !.cats = {x.cat : x \in f}, !.names = {<< >>} \cup EeNames(body, acfg)]
                  ELSE Messages([q EXCEPT !.phase = "cert", !.buf = rest,
                                          !.names = IF EeNames(body, acfg) = {} THEN {<< >>} ELSE EeNames(body, acfg)], acfg, ch, key)
            [] p.phase = "cert" ->
               [early EXCEPT !.must = CertificateOutcomes(body), !.cats = {"C13", "C12"}]

(* Complete records at the front of p.in are interpreted. *)
RECURSIVE Records(_, _, _, _)
Records(p, acfg, ch, key) ==
  IF p.must # {} \/ Len(p.in) < 5 THEN p ELSE
  LET t == p.in[1]  n == U16(p.in, 3) IN
  IF HeaderRefused(p.prot, t, n)
  THEN LET v == IF p.prot THEN ProtVerdict(t, n, FALSE, FALSE, 0, 0, 0, 0) ELSE PlainVerdict(t, n, FALSE, 0)
       IN [p EXCEPT !.must = v.must, !.cats = {v.cat}]
  ELSE IF Len(p.in) < 5 + n THEN [p EXCEPT !.may = @ \cup HeaderMay(p.prot, t, n)]
  ELSE
  LET record == Take(p.in, 5 + n)
      body == Drop(record, 5)
      o == IF p.prot /\ t = APPDATA /\ n >= MinCipher THEN OpenRecord(p.keys.suite, p.keys.server, p.seq, record) ELSE << FALSE, << >> >>
      z == LastNonZero(o[2])
      inner == Take(o[2], z - 1)
      v == IF p.prot
           THEN ProtVerdict(t, n, body = << 1 >>, o[1], IF z = 0 THEN 0 ELSE o[2][z], z - 1,
                            IF z > 2 THEN inner[2] ELSE 0, Len(o[2]))
           ELSE PlainVerdict(t, n, body = << 1 >>, IF n >= 2 THEN body[2] ELSE 0)
      q == [p EXCEPT !.in = Drop(p.in, 5 + n), !.must = v.must, !.may = @ \cup v.may,
                     !.cats = IF v.must = {} THEN @ ELSE {v.cat},
                     !.seq = IF p.prot /\ o[1] THEN @ + 1 ELSE @,
                     !.buf = IF v.act = "data" THEN @ \o (IF p.prot THEN inner ELSE body) ELSE @]
  IN Records(Messages(q, acfg, ch, key), acfg, ch, key)

(****************************** the client's bytes *************************)
(* After the first flight only one alert may be sent.  Is `tail' that alert,
   whole or (cut) a beginning of it?  enc: whether it is encrypted. *)
IsAlertBody(b, code, levels) == Len(b) = 2 /\ b[1] \in levels /\ b[2] = code
PlainAlert(tail, code, levels) ==
  /\ Len(tail) = 7 /\ tail[1] = ALERT /\ tail[2] = 3 /\ tail[3] \in {1, 3} /\ U16(tail, 3) = 2
  /\ IsAlertBody(Drop(tail, 5), code, levels)
EncAlert(tail, keys, code, levels) ==
  /\ Len(tail) >= 5 + 19 /\ Take(tail, 3) = << APPDATA, 3, 3 >> /\ Len(tail) = 5 + U16(tail, 3)
  /\ LET o == OpenRecord(keys.suite, keys.client, 0, tail)
         z == LastNonZero(o[2])
     IN o[1] /\ z = 3 /\ o[2][3] = ALERT /\ IsAlertBody(Take(o[2], 2), code, levels)
AlertSent(tail, p, code, levels) ==
  \/ (~p.prot \/ p.either) /\ PlainAlert(tail, code, levels)
  \/ p.prot /\ EncAlert(tail, p.keys, code, levels)
CutAlert(tail, p) ==        \* what can be said about a beginning
  \/ tail = << >>
  \/ ~p.prot /\ Len(tail) < 7 /\ tail = Take(<< ALERT, 3, 3, 0, 2, 2 >>, Len(tail))
  \/ ~p.prot /\ Len(tail) < 7 /\ tail = Take(<< ALERT, 3, 3, 0, 2, 1 >>, Len(tail))
  \/ p.prot /\ (Len(tail) < 5 \/ Len(tail) < 5 + U16(tail, 3)) /\ Take(tail, 3) = Take(<< APPDATA, 3, 3 >>, Len(tail))

(******************************* the events ********************************)
E == Traces[tid].ev[pos + 1]

(* Complaints: << reason, the properties it concerns >>; an event without any is allowed. *)
Unless(ok, reason, props) == IF ok THEN {} ELSE {<< reason, props >>}

(* A call.  Nothing may happen between calls, so calls and returns alternate. *)
OnCall ==
  LET s1 == [s EXCEPT !.call = E.f, !.io = 0, !.att.last = "", !.mark = Len(s.att.tx)]
  IN << Unless(s.call = "", "nested call", {"C16"}),
        IF E.f = "new" THEN [Start EXCEPT !.call = "new", !.left = s.left, !.outs = s.outs]
        ELSE IF E.f = "connect" /\ ~s.live
        THEN [s1 EXCEPT !.live = TRUE, !.acfg = s.cfg, !.att = FreshAttempt, !.names = {<< >>}, !.mark = 0] ELSE s1 >>

OnCfg == << {}, [s EXCEPT !.cfg = [hassni |-> E.hassni, sni |-> Hex(E.sni), hasalpn |-> E.hasalpn, alpn |-> Hex(E.alpn),
                                   sig |-> E.sig, grp |-> E.grp, suites |-> E.suites]] >>

OnRand ==
  << Unless(s.call = "connect", "random bytes drawn outside connect", {"C14", "C16"}),
     [s EXCEPT !.att.draws = @ \o Hex(E.b), !.att.drawfail = @ \/ E.ok = 0] >>

(* The complete first flight: well formed, as configured, with fresh secrets *)
FlightComplaints(a, msg) ==
  LET body == Drop(msg, 4)
      bad == IF msg[1] # 1 THEN {"message type"} ELSE ClientHelloBody(body, s.acfg)
      share == HelloShare(msg)
      ks == KeyDraws(a.draws, share)
      rs == {i \in DrawIndexes(a.draws) : DrawAt(a.draws, i) = HelloRandom(msg)}
  IN IF CfgErrors(s.acfg) # {} THEN {<< "ClientHello although the configuration allows none", {"C06"} >>}
     ELSE IF bad # {} THEN {<< "ClientHello: " \o ToString(bad), {"C06", "C05", "C09"} >>}
     ELSE Unless(ks # {}, "the key share does not stem from the random source", {"C14", "C26", "C06"})
          \cup Unless(\E i \in rs : \E j \in ks : i # j, "the hello random does not stem from the random source", {"C14"})

OnWrite ==
  LET a == s.att
      tx == IF E.ok = 1 THEN a.tx \o Hex(E.b) ELSE a.tx
      fl == Flight(tx, 0, << >>)
      flnow == ~a.flight.done /\ fl.done
      c == IF s.call = "connect" /\ flnow /\ fl.ok THEN FlightComplaints(a, fl.msg) ELSE {}
      key == IF flnow /\ fl.ok /\ c = {}
             THEN LET share == HelloShare(fl.msg) IN PrivateKey(a.draws, share, CHOOSE i \in KeyDraws(a.draws, share) : TRUE) ELSE << >>
      s1 == [s EXCEPT !.att.tx = tx, !.io = @ + 1, !.att.last = IF E.ok = 1 THEN "w" ELSE "wf",
                      !.att.wfail = @ \/ (E.ok = 0 /\ (a.flight.done \/ s.call = "close"))]
  IN << Unless(s.call \in {"connect", "close"} /\ s.live, "write outside a connection", {"C16", "C08"})
        \cup Unless(a.closes = 0, "write after the transport was closed", {"C08"})
        \cup Unless(E.amt > 0, "write of no bytes", {"C16"})
        \cup Unless(~a.drawfail, "output although the random source failed", {"C14"})
        \cup (IF s.call = "connect" /\ ~a.flight.done
              THEN Unless(fl.ok /\ (fl.done => fl.len = Len(tx)), "malformed first flight", {"C06", "C05", "C09"}) \cup c
              ELSE {}),
        IF flnow /\ s.call = "connect" THEN [s1 EXCEPT !.att.flight = [done |-> TRUE, len |-> fl.len, msg |-> fl.msg, key |-> key]] ELSE s1 >>

OnRead ==
  LET a == s.att
      p1 == IF E.ok = 1 THEN [a.peer EXCEPT !.in = @ \o Hex(E.b), !.may = {}] ELSE a.peer
      p2 == IF E.ok = 1 THEN Records(p1, s.acfg, a.flight.msg, a.flight.key) ELSE p1
      s1 == [s EXCEPT !.att.peer = p2, !.io = @ + 1, !.att.last = IF E.ok = 1 THEN "r" ELSE "rf"]
  IN << Unless(s.call = "connect" /\ s.live, "read outside connect", {"C16", "C08"})
        \cup Unless(a.closes = 0, "read after the transport was closed", {"C08"})
        \cup Unless(a.flight.done, "read before the ClientHello was sent", {"C05", "C06"})
        \cup Unless(E.amt > 0, "read of no bytes", {"C16", "C01"})
        \cup Unless(a.peer.must = {}, "the client goes on where it has to fail", {"C08"} \cup a.peer.cats),
        s1 >>

OnClose ==
  << Unless(s.call \in {"connect", "close"} /\ s.live, "transport closed outside a connection", {"C08", "C16"})
     \cup Unless(s.att.closes = 0, "transport closed twice", {"C08"}),
     [s EXCEPT !.att.closes = @ + 1, !.io = @ + 1] >>

(* The return of connect *)
FinalProps(p) == {"C08"} \cup p.cats \cup (IF p.must = {} THEN (CASE p.phase = "sh" -> {"C04", "C15", "C11"}
                                                             [] p.phase = "ee" -> {"C07", "C11", "C15", "C10", "C02"}
                                                             [] p.phase = "cert" -> {"C13", "C11", "C07", "C02"}) ELSE {})
ConnectReturn ==
  LET a == s.att  p == a.peer  ce == CfgErrors(s.acfg)
      local == a.tx = << >> /\ ~a.flight.done /\ a.closes <= 1
      tail == Drop(a.tx, a.flight.len)
      peerish == a.flight.done /\ tail = << >> /\ a.closes = 1
      ownfail == a.flight.done /\ a.closes = 1 /\ (AlertSent(tail, p, E.al, {2}) \/ (a.wfail /\ CutAlert(tail, p)))
  IN Unless(E.rv < 0, "connect reports success", {"C12"})
     \cup CASE E.err = ErrWantRead ->
               Unless(ce = {}, "the configuration does not allow a connection", {"C06"})
               \cup Unless(~a.drawfail, "the random source failed", {"C14"})
               \cup Unless(a.last = "rf" /\ a.flight.done, "want-read without a failed read", {"C05", "C08"})
               \cup Unless(p.must = {}, "the client waits where it has to fail", {"C08"} \cup p.cats)
               \cup Unless(tail = << >> /\ a.closes = 0, "output although the attempt goes on", {"C08", "C05"})
            [] E.err = ErrWantWrite ->
               Unless(ce = {}, "the configuration does not allow a connection", {"C06"})
               \cup Unless(~a.drawfail, "the random source failed", {"C14"})
               \cup Unless(a.last = "wf" /\ ~a.flight.done, "want-write without a failed write", {"C05", "C08"})
               \cup Unless(a.closes = 0, "closed although the attempt goes on", {"C08", "C05"})
            [] E.err = ErrTls /\ ~a.flight.done ->
               Unless(<< E.err, E.al >> \in ce \/ CfgMayFail(s.acfg), "no reason to fail", {"C06", "C08"})
               \cup Unless(local, "output although the attempt cannot start", {"C06", "C08"})
            [] E.err = ErrTls /\ a.flight.done ->
               Unless(<< ErrTls, E.al >> \in p.must \cup p.may,
                      "alert " \o ToString(E.al) \o " does not describe the cause, expected one of " \o ToString(p.must \cup p.may), FinalProps(p))
               \cup Unless(ownfail, "not exactly one matching alert and one close", {"C08", "C07"})
            [] E.err = ErrTlsPeer ->
               Unless(<< ErrTlsPeer, E.al >> \in p.must \cup p.may,
                      "peer alert " \o ToString(E.al) \o " reported, expected one of " \o ToString(p.must \cup p.may), FinalProps(p))
               \cup Unless(peerish, "not exactly one close after a peer's alert", {"C08"})
            [] E.err = ErrRng -> Unless(a.drawfail /\ local, "random source error without cause or with output", {"C14", "C08"})
            [] E.err = ErrPrivKeyIsZero -> Unless(ZeroDraw(a.draws) /\ local, "zero key error without cause or with output", {"C14", "C08"})
            [] E.err = ErrMissingExtensions ->
               Unless((\E x \in ce : x[1] = E.err) /\ local, "missing extensions error without cause or with output", {"C06", "C08"})
            [] OTHER -> {<< "unknown error", {"C08", "C16"} >>}

(* The return of close on a live attempt: one close_notify, unless the stream stops within a record of the first flight *)
CloseReturn ==
  LET a == s.att  p == a.peer
      before == Flight(Take(a.tx, s.mark), 0, << >>)
      tail == Drop(a.tx, IF a.flight.done THEN a.flight.len ELSE s.mark)
  IN Unless(a.closes = 1, "close does not close the transport exactly once", {"C08", "C16"})
     \cup (IF a.flight.done
           THEN Unless(AlertSent(tail, p, CloseNotify, {1, 2}) \/ (a.wfail /\ CutAlert(tail, p)), "close does not send close_notify", {"C08", "C16", "C07"})
           ELSE Unless(\/ tail = << >>
                       \/ before.whole /\ (PlainAlert(tail, CloseNotify, {1, 2}) \/ (a.wfail /\ CutAlert(tail, p))),
                       "close garbles the stream", {"C08", "C05", "C16"}))

(* Strings of the interface end at the first zero byte. *)
CStr(b) == LET z == {i \in 1..Len(b) : b[i] = 0} IN IF z = {} THEN b ELSE Take(b, (CHOOSE i \in z : \A k \in z : i <= k) - 1)

DefaultLayout == << 0, 1, 1, 0, 0, 3 >>     \* no name, both masks, no protocols, all suites

OnRet ==
  LET a == s.att
      names == IF E.f = "connect" THEN a.peer.names ELSE IF E.f = "close" THEN s.names \cup {<< >>} ELSE s.names
      goes == E.f = "connect" /\ E.rv < 0 /\ E.err \in {ErrWantRead, ErrWantWrite}
      c == CASE E.f = "new" -> Unless(E.rv = 1 /\ E.dflt = DefaultLayout, "a new object does not have the default configuration", {"C16"})
             [] E.f = "connect" -> ConnectReturn
             [] E.f = "close" -> IF s.live THEN CloseReturn ELSE {}
             [] E.f = "query" -> Unless(s.err = -1 \/ (E.err = s.err /\ E.al = s.al), "a query changes the error", {"C16", "C08"})
             [] E.f = "getcfg" -> Unless(E.rv = 1, "the configuration moves", {"C16"})
             [] E.f = "nulls" -> Unless(E.rv = 1, "a null object has a protocol name", {"C16"})
             [] OTHER -> {}
      reports == E.f \in {"connect", "close", "query"}
      s1 == [s EXCEPT !.call = "",
                      !.live = IF E.f = "connect" THEN goes ELSE IF E.f = "close" THEN FALSE ELSE @,
                      !.names = names,
                      !.outs = IF E.f = "connect" /\ ~goes THEN Append(@, [rv |-> E.rv, err |-> E.err, al |-> E.al, app |-> E.app, tx |-> a.tx,
                                                                       wfail |-> a.wfail, fl |-> a.flight.len]) ELSE @]
  IN << Unless(s.call = E.f, "a return without a call", {"C16"})
        \cup c
        \cup Unless(s.io = 0 \/ E.f = "connect" \/ (E.f = "close" /\ s.live), "a call that performs no IO does", {"C16", "C08"})
        \cup Unless(~reports \/ (E.nul = 1 /\ Hex(E.app) \in {CStr(n) : n \in names}), "wrong application protocol name", {"C10", "C09"}),
        IF reports THEN [s1 EXCEPT !.err = E.err, !.al = E.al] ELSE s1 >>

(* The memory the library holds after a call, and the most it held during it.  An object and its attempt need room for a message
   (at most 128 KiB are accepted), two records and the offered protocols; whatever the server sends, it is not more than that.
   A freed object leaves nothing, but for what the process may set up once. *)
MostHeld == 524288
MostAtOnce == 1048576
MostLeft == 65536
Grows(l) == \E i \in 2..Len(l) - 3 : \A j \in i..i + 2 : l[j] < l[j + 1]
OnMem ==
  LET left == IF E.f = "free" THEN Append(s.left, E.live) ELSE s.left
  IN << Unless(E.bad = 0, "memory is released twice or written beyond its end", {"C17"})
        \cup Unless(E.live <= MostHeld /\ E.peak <= MostAtOnce, "memory grows with what the server sends", {"C17"})
        \cup Unless(\A i \in 1..Len(left) : left[i] <= MostLeft, "memory is not returned", {"C17"})
        \cup Unless(~Grows(left), "memory is not returned", {"C17"}),
        [s EXCEPT !.left = left] >>

(* At the end of the trace *)
T == Traces[tid]
(* base: what the same scenario gave under undisturbed IO (basis C05) or without the other connections (basis C18) *)
SameAs(o, b) ==
  /\ o.rv = b.rv /\ o.err = b.err /\ o.app = b.app
  /\ (o.err \in {ErrTls, ErrTlsPeer} => o.al = b.al)
  /\ LET tx == Hex(b.tx) IN IF o.wfail THEN Take(o.tx, o.fl) = Take(tx, o.fl) ELSE o.tx = tx
(* expect: what the abstract machine allows, per attempt: `o', the outcomes << error, alert >> (alert -1: any), and whether
   the attempt may also never end. *)
RECURSIVE Fits(_, _)
Fits(o, x) ==
  IF x = << >> THEN o = << >>
  ELSE \/ x[1].open = 1 /\ Fits(o, Tail(x))
       \/ /\ o # << >>
          /\ \E j \in 1..Len(x[1].o) : x[1].o[j][1] = o[1].err /\ x[1].o[j][2] \in {-1, o[1].al}
          /\ Fits(Tail(o), Tail(x))
(* o: the different outcomes of many executions of one attempt in racing threads; base: the outcome alone *)
OnRace == << Unless(\A i \in 1..Len(E.o) : E.o[i] = E.base, "the outcome depends on other connections", {"C18"}), s >>

OnEnd ==
  << Unless(s.call = "", "the trace ends within a call", {"C16"})
     \cup (IF T.base = << >> THEN {}
           ELSE Unless(Len(T.base) = Len(s.outs) /\ \A i \in 1..Len(s.outs) : SameAs(s.outs[i], T.base[i]),
                       IF T.basis = "C18" THEN "the outcome depends on other connections" ELSE "the outcome depends on how IO is cut up", {T.basis}))
     \cup (IF T.expect = << >> THEN {}
           ELSE Unless(Fits(s.outs, T.expect), "not an outcome of the abstract machine", {"C03", "C08", "C11"})),
     s >>

(* What a C program sees through the published header: constants, layout (64-bit), defaults and first answers,
   and the description of every alert. *)
PublishedAbi ==
  {<< "TURTLS_ALERT_CLOSE_NOTIFY", 0 >>, << "TURTLS_ALERT_UNEXPECTED_MESSAGE", 10 >>,
   << "TURTLS_ALERT_BAD_RECORD_MAC", 20 >>, << "TURTLS_ALERT_RECORD_OVERFLOW", 22 >>,
   << "TURTLS_ALERT_HANDSHAKE_FAILURE", 40 >>, << "TURTLS_ALERT_BAD_CERT", 42 >>, << "TURTLS_ALERT_UNSUPPORTED_CERT", 43 >>,
   << "TURTLS_ALERT_CERT_REVOKED", 44 >>, << "TURTLS_ALERT_CERT_EXPIRED", 45 >>, << "TURTLS_ALERT_CERT_UNKNOWN", 46 >>,
   << "TURTLS_ALERT_ILLEGAL_PARAM", 47 >>, << "TURTLS_ALERT_UNKNOWN_CA", 48 >>, << "TURTLS_ALERT_ACCESS_DENIED", 49 >>,
   << "TURTLS_ALERT_DECODE_ERROR", 50 >>, << "TURTLS_ALERT_DECRYPT_ERORR", 51 >>, << "TURTLS_ALERT_PROTOCOL_VERSION", 70 >>,
   << "TURTLS_ALERT_INSUFFICIENT_SECURITY", 71 >>, << "TURTLS_ALERT_INTERNAL_ERROR", 80 >>,
   << "TURTLS_ALERT_INAPPROPRIATE_FALLBACK", 86 >>, << "TURTLS_ALERT_USER_CANCELLED", 90 >>,
   << "TURTLS_ALERT_MISSING_EXTENSION", 109 >>, << "TURTLS_ALERT_UNSUPPORTED_EXTENSION", 110 >>,
   << "TURTLS_ALERT_UNRECOGNIZED_NAME", 112 >>, << "TURTLS_ALERT_BAD_CERT_STATUS_RESPONSE", 113 >>,
   << "TURTLS_ALERT_UNKNOWN_PSK_IDENTITY", 115 >>, << "TURTLS_ALERT_CERT_REQUIRED", 116 >>,
   << "TURTLS_ALERT_NO_APP_PROTOCOL", 120 >>, << "TURTLS_ERROR_TLS", 0 >>, << "TURTLS_ERROR_TLS_PEER", 1 >>,
   << "TURTLS_ERROR_RNG", 2 >>, << "TURTLS_ERROR_WANT_READ", 3 >>, << "TURTLS_ERROR_WANT_WRITE", 4 >>,
   << "TURTLS_ERROR_PRIV_KEY_IS_ZERO", 5 >>, << "TURTLS_ERROR_MISSING_EXTENSIONS", 6 >>, << "TURTLS_ECDSA_SECP256R1", 1 >>,
   << "TURTLS_SECP256R1", 1 >>, << "TurtlsCipherList_TURTLS_CHA_CHA_POLY1305_SHA256", 1 >>,
   << "TurtlsCipherList_TURTLS_AES_128_GCM_SHA256", 2 >>, << "sizeof_TurtlsExts", 32 >>, << "TurtlsExts_server_name", 0 >>,
   << "TurtlsExts_sig_algs", 8 >>, << "TurtlsExts_sup_groups", 10 >>, << "TurtlsExts_app_protos", 16 >>,
   << "TurtlsExts_app_protos_len", 24 >>, << "sizeof_TurtlsConfig", 40 >>, << "TurtlsConfig_extensions", 0 >>,
   << "TurtlsConfig_cipher_suites", 32 >>, << "sizeof_TurtlsIo", 32 >>, << "TurtlsIo_write_fn", 0 >>,
   << "TurtlsIo_read_fn", 8 >>, << "TurtlsIo_close_fn", 16 >>, << "TurtlsIo_ctx", 24 >>, << "default_server_name", 0 >>,
   << "default_sig_algs", 1 >>, << "default_sup_groups", 1 >>, << "default_app_protos", 0 >>,
   << "default_app_protos_len", 0 >>, << "default_cipher_suites", 3 >>, << "connect", 1 >>, << "waits", 1 >>,
   << "app_proto_length", 0 >>, << "connect_without_suites", 1 >>, << "fails", 1 >>, << "connect_without_signatures", 1 >>,
   << "misses_extensions", 1 >>}
OnAbi ==
  << LET v == {E.v[i] : i \in 1..Len(E.v)}
         t == {E.s[i][2] : i \in 1..Len(E.s)}
     IN Unless(v = PublishedAbi, "the C header and the library differ: " \o ToString((v \ PublishedAbi) \cup (PublishedAbi \ v)), {"C16"})
        \cup Unless({E.s[i][1] : i \in 1..Len(E.s)} = KnownAlerts, "not every alert is described", {"C16"})
        \cup Unless("" \notin t /\ Cardinality(t) = Len(E.s), "alerts share descriptions, or have none", {"C16"}),
     s >>

(* What a crash breaks besides: whatever was being decided *)
CrashProps == IF s.call \notin {"connect"} THEN {"C16"}
              ELSE IF s.att.flight.done THEN FinalProps(s.att.peer) ELSE {"C06", "C14", "C16"}
Step ==
  CASE E.k = "call" -> OnCall
    [] E.k = "cfg"  -> OnCfg
    [] E.k = "rand" -> OnRand
    [] E.k = "w"    -> OnWrite
    [] E.k = "r"    -> OnRead
    [] E.k = "c"    -> OnClose
    [] E.k = "ret"  -> OnRet
    [] E.k = "mem"  -> OnMem
    [] E.k = "race" -> OnRace
    [] E.k = "end"  -> OnEnd
    [] E.k = "abi"  -> OnAbi
    [] E.k = "noabi" -> << {<< "the C header cannot be used with the library", {"C16"} >>}, s >>
    [] E.k = "badctx" -> << {<< "a callback gets a wrong context", {"C16"} >>}, s >>
    [] E.k = "stale" -> << {<< "an application protocol name obtained earlier is not kept up to date", {"C10", "C16"} >>}, s >>
    [] E.k = "foreign" -> << {<< "a call on another connection changes what this one shows", {"C18"} >>}, s >>
    [] E.k = "crash" -> << {<< "the process dies with signal " \o ToString(E.sig), {"C01"} \cup CrashProps >>}, s >>
    [] E.k = "hang"  -> << {<< "the call does not come to an end", {"C01", "C05"} >>}, s >>

Init == tid \in 1..Len(Traces) /\ pos = 0 /\ s = Start /\ verdict = ""
Next ==
  /\ verdict = "" /\ UNCHANGED tid
  /\ LET r == Step IN
     IF r[1] # {}
     THEN /\ verdict' = "REJECT" /\ UNCHANGED << pos, s >>
          /\ PrintT(<< "REJECT", T.id, pos, r[1] >>)
     ELSE /\ pos' = pos + 1 /\ s' = r[2]
          /\ IF pos + 1 < Len(T.ev) THEN verdict' = ""
             ELSE IF E.k = "end" THEN verdict' = "ACCEPT" /\ PrintT(<< "ACCEPT", T.id, pos >>)
             ELSE verdict' = "REJECT" /\ PrintT(<< "REJECT", T.id, pos, {<< "the trace is incomplete", {"C01"} >>} >>)
Spec == Init /\ [][Next]_<< tid, pos, s, verdict >>
(* The trace and the position determine the rest: this is what TLC identifies states by. *)
View == << tid, pos, verdict >>
=============================================================================
