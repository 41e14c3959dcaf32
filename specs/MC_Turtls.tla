----------------------------- MODULE MC_Turtls -----------------------------
(* Bounded instances of Turtls for checking its properties. *)
EXTENDS Turtls
M(t, v) == [ty |-> t, v |-> v]
AllParts == {"h1", "h4"}
NoParts == {}
OkRng == {"ok"}
SomeRngs == {"ok", "fail1"}
AllRngs == {"ok", "fail1", "fail2", "zero"}
Names == [DefaultCfg EXCEPT !.alpn = TRUE]
OneSuite == [DefaultCfg EXCEPT !.suites = {"aes"}]
NoSuites == [DefaultCfg EXCEPT !.suites = {}]
NoSigs == [DefaultCfg EXCEPT !.sigs = FALSE]
NoGroups == [DefaultCfg EXCEPT !.groups = FALSE]
OneConfig == {DefaultCfg}
FewConfigs == {DefaultCfg, Names, OneSuite}
SomeConfigs == {DefaultCfg, Names, OneSuite, NoSuites, NoSigs}
AllConfigs == SomeConfigs \cup {NoGroups, [Names EXCEPT !.suites = {"chacha"}]}

(* Mistakes that the properties have to notice *)
TrustingVerdict(p, r) ==
  IF p.prot /\ r.k = "data" THEN Go("data")
  ELSE IF p.prot THEN Refuse("C02", {UnexpectedMessage})
  ELSE IF r.k = "data" THEN Go("data") ELSE LET x == PlainSpecial(r.name) IN PlainVerdict(x[1], x[2], x[3], x[4])
NotShut == pc = "shut" /\ pc' = "return" /\ Quiet /\ UNCHANGED << cfg, att, call, last, app, left >>
StaleConnect ==
  /\ pc = "idle" /\ left.ops > 0 /\ (att.live \/ left.atts > 0)
  /\ call' = "connect"
  /\ IF att.live
     THEN /\ UNCHANGED att /\ pc' = (IF att.fl < 2 THEN "write" ELSE "read")
          /\ left' = [left EXCEPT !.ops = @ - 1] /\ Note(<< "resume" >>)
     ELSE /\ att' = [FreshAttempt EXCEPT !.live = TRUE, !.cfg = cfg, !.p.name = att.p.name] /\ pc' = "draw"
          /\ left' = [left EXCEPT !.ops = @ - 1, !.atts = @ - 1] /\ Note(<< "start" >>)
  /\ UNCHANGED << cfg, last, app >>

(* What a server may send *)
PlainHello == M("SH", "chacha")
Flight == {PlainHello, M("EE", "none"), M("CERT", "good")}
OrderMessages == Flight \cup {M("FIN", "x")}
FewMessages == {PlainHello, M("EE", "first"), M("EE", "unknown"), M("CERT", "good")}
LifeMessages == {PlainHello, M("SH", "aes"), M("EE", "first"), M("EE", "second"), M("CERT", "good")}
HelloFaults == {"short", "retry", "sidlong", "sid", "suite", "compression", "extlen", "exttrunc", "dup", "unknown", "misplaced", "version", "noversion",
                "group", "form", "point", "noshare", "verlen", "ksshort"}
WideMessages == OrderMessages \cup {M("SH", "aes")} \cup {M("SH", v) : v \in HelloFaults}
                \cup {M("EE", v) : v \in {"first", "second", "notoffered", "unknown", "misplaced", "dup", "extlen", "exttrunc", "alpnform", "alpnmany"}}
                \cup {M("CERT", v) : v \in {"version", "algorithm", "list", "emptycert", "parse", "signature"}}
                \cup {M(t, "long") : t \in {"SH", "EE", "CERT", "FIN"}}
NoSpecials == {}
OrderSpecials == {"ccs", "alert", "ealert", "tamper", "unsealed"}
FewSpecials == {"ccs", "alert", "tamper"}
WideSpecials == {"ccs", "ccs0", "ccs2", "ccsbad", "alert", "close", "alert99", "alert1", "alert3", "app", "app16", "app0", "hs0", "type24", "hsbig", "ccsbig",
                 "appbig", "apphuge", "24huge", "unsealed"} \cup SealedNames \cup ForgedNames
=============================================================================
