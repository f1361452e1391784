------------------------------ MODULE Failover ------------------------------
(***************************************************************************)
(* How an article travels through the configured news servers.             *)
(*                                                                         *)
(* A server is a record [level, group, opt, ret, conns, act]; ret is       *)
(* TRUE if old articles are out of its retention.  An article is a record  *)
(*   st     "new" | "run" (looking for a connection) | "held" (asked,      *)
(*          no answer yet) | "ok" | "failed"                               *)
(*   lvl    normalised level where it is looked for                        *)
(*   failed servers which do not have it                                   *)
(*   rem    attempts left on the same server                               *)
(*   want   server to be asked again (0: any)                              *)
(*   dirty  the list of servers has been changed since it was started      *)
(*   at     the server which was asked                                     *)
(*                                                                         *)
(* Answers: "ok", "nf" (not there), "crc" (damaged), "fail" (any other     *)
(* failure), "cerr" (connection lost or refused).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* ---- levels -------------------------------------------------------------
Usable(s) == s.act /\ s.conns > 0
MinLevel(C) == CHOOSE m \in {C[i].level : i \in DOMAIN C} : \A i \in DOMAIN C : m <= C[i].level
\* servers which take part; those of the lowest level even if they are not active
Part(C) == {i \in DOMAIN C : Usable(C[i]) \/ C[i].level = MinLevel(C)}
Norm(C, i) == IF i \in Part(C) THEN Cardinality({C[j].level : j \in Part(C)} \cap {l \in {C[j].level : j \in DOMAIN C} : l < C[i].level}) ELSE -1
MaxNorm(C) == Cardinality({C[j].level : j \in Part(C)}) - 1
OnLevel(C, l) == {i \in DOMAIN C : Norm(C, i) = l}

Same(C, i, j) == i = j \/ (C[i].group > 0 /\ C[i].group = C[j].group /\ Norm(C, i) = Norm(C, j))
\* servers counting as failed, because they or a member of their group failed
Out(C, F) == {i \in DOMAIN C : \E j \in F : Same(C, i, j)}
Expired(C, a) == IF a.old THEN {i \in DOMAIN C : C[i].ret /\ Usable(C[i])} ELSE {}
Unusable(C) == {i \in DOMAIN C : ~Usable(C[i])}

\* every server of the level is out; `maybe': optional servers which can be blocked at the moment
Through(C, a, l, maybe) ==
  OnLevel(C, l) \subseteq Unusable(C) \cup maybe \cup Out(C, a.failed \cup (Expired(C, a) \cap OnLevel(C, l)))
\* level l can be reached
Reach(C, a, l, maybe) == l >= a.lvl /\ \A k \in a.lvl .. l - 1 : Through(C, a, k, maybe)
\* it can be reported failed
Exhausted(C, a, maybe) == \A k \in a.lvl .. MaxNorm(C) : Through(C, a, k, maybe)

NewArt(old) == [st |-> "new", lvl |-> 0, failed |-> {}, rem |-> 0, want |-> 0, dirty |-> FALSE, at |-> 0, old |-> old]

\* server i may be asked for article a;  shaky: servers whose connections may fail unseen
MayAsk(C, a, i, maybe, shaky) ==
  /\ Usable(C[i]) /\ i \in Part(C)
  /\ a.st \in {"new", "run"}
  /\ i \notin Expired(C, a)
  /\ i \notin Out(C, a.failed)
  /\ Reach(C, a, Norm(C, i), maybe)
  \* the next attempt is at the same server or its group, unless the connection or a member of the group fails
  /\ a.want # 0 /\ a.want \notin shaky /\ a.want \notin Out(C, Expired(C, a)) => Same(C, a.want, i)

Ask(C, a, i) == [a EXCEPT !.st = "held", !.at = i, !.lvl = Norm(C, i), !.want = 0]

\* the states of the article after answer r; R: attempts per server
Answer(C, a, r, R, shaky) ==
  LET i == a.at  b == [a EXCEPT !.at = 0, !.st = "run"] IN
  IF r = "ok" THEN {[b EXCEPT !.st = "ok"]}
  ELSE IF a.dirty THEN {NewArt(a.old)}
  ELSE IF r \in {"nf", "crc"} THEN {[b EXCEPT !.failed = @ \cup {i}, !.rem = R]}
  ELSE IF r = "fail" THEN
         (IF b.rem > 1 THEN {[b EXCEPT !.rem = @ - 1, !.want = i]} ELSE {[b EXCEPT !.failed = @ \cup {i}, !.rem = R]})
         \* an unseen failure of an optional server gives back the attempts
         \cup (IF shaky # {} /\ R > 1 THEN {[b EXCEPT !.rem = R - 1, !.want = i]} ELSE {})
  ELSE {[b EXCEPT !.rem = IF C[i].opt THEN R ELSE @]}

Start(a, R) == IF a.st = "new" THEN [a EXCEPT !.st = "run", !.rem = R] ELSE a
=============================================================================
