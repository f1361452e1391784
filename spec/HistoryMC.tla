----------------------------- MODULE HistoryMC -----------------------------
(***************************************************************************)
(* All histories of up to Adds additions (one name, several scores, modes, *)
(* contents, paused or not), resuming, downloading while articles are      *)
(* available or not, and, with Marks, deleting and marking, of History.tla.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Adds, Scores, Modes, Marks
VARIABLES s, n, last
vars == <<s, n, last>>
Lower(x) == x
INSTANCE History WITH Low <- Lower

\* one file with one article; contents 1.. are different, the article of content k is "k"
Def(id, ds, dm, k) ==
  LET src == <<[name |-> "f" \o ToString(id), arts |-> <<[sz |-> 100, mid |-> ToString(k)]>>]>>
  IN [k |-> "NZB", id |-> id, name |-> "a", cat |-> "", dk |-> "", ds |-> ds, dm |-> dm, par |-> <<>>, fh |-> k, ff |-> k, src |-> src,
      files |-> Fresh(src, FALSE), done |-> <<>>, del |-> "none", mark |-> "none", dp |-> FALSE, post |-> FALSE, parking |-> FALSE, dir |-> "", moved |-> FALSE,
      time |-> 0, dst |-> "", size |-> 100, bad |-> 0]
Contents == 1..Adds
Init == s = [q |-> <<>>, h |-> <<>>, now |-> 0, disk |-> {}, gone |-> {}, check |-> TRUE, paused |-> TRUE] /\ n = 0 /\ last = "init"
Add == /\ n < Adds /\ n' = n + 1 /\ last' = "add"
       /\ \E ds \in Scores, dm \in Modes, k \in 1..(n + 1) : s' = AddNzb(s, Def(n + 1, ds, dm, k), FALSE)
\* one collection is downloaded, or is not on the server
Get == \E i \in DOMAIN s.q, fail \in BOOLEAN :
         LET st == [s EXCEPT !.gone = IF fail THEN {ToString(k) : k \in Contents} ELSE {}]
         IN /\ Runnable(s.q[i]) /\ s' = [Download(st, i) EXCEPT !.gone = {}] /\ n' = n /\ last' = "get"
Mark == /\ Marks /\ n' = n
        /\ \/ \E i \in DOMAIN s.q : s' = GroupDelete(s, s.q[i], "GroupDelete") /\ last' = "delete"
           \/ \E i \in DOMAIN s.h, m \in {"HistoryMarkBad", "HistoryMarkGood", "HistoryDelete"} :
                /\ ~(m = "HistoryMarkGood" /\ s.h[i].mark = "good") /\ ~(m = "HistoryMarkBad" /\ s.h[i].mark = "bad") /\ ~(m = "HistoryDelete" /\ s.h[i].k = "DUP")
                /\ s' = HistEdit(s, [cmd |-> m, ids |-> <<s.h[i].id>>, arg |-> "", arg2 |-> "", n |-> 0]).s /\ last' = m
Next == Add \/ Get \/ Mark
Spec == Init /\ [][Next]_vars

Place == Ids(s.q) \cap Ids(s.h) = {} /\ Cardinality(Ids(s.q)) = Len(s.q) /\ Cardinality(Ids(s.h)) = Len(s.h) /\ Ids(s.q) \cup Ids(s.h) \subseteq 1..n
AllKept == Marks \/ Ids(s.q) \cup Ids(s.h) = 1..n
\* in score mode two copies are never in the queue, and none beside an equally good or better success
Scored(c) == c.dm = "SCORE"
OnlyOne == \A i, j \in DOMAIN s.q : i = j \/ ~(Scored(s.q[i]) /\ Scored(s.q[j]))
NotAgain == \A i \in DOMAIN s.q, j \in DOMAIN s.h :
              Scored(s.q[i]) /\ s.h[j].dm # "FORCE" /\ s.h[j].k = "NZB" /\ Success(s.h[j]) => s.q[i].ds > s.h[j].ds
\* a backup only waits while there is something at least as good
Waits == \A j \in DOMAIN s.h : s.h[j].k = "NZB" /\ s.h[j].del = "dupe" /\ s.h[j].mark # "bad"
           => (\E i \in DOMAIN s.q : s.q[i].ds >= s.h[j].ds) \/ (\E k \in DOMAIN s.h : Success(s.h[k]) /\ s.h[k].ds >= s.h[j].ds)
\* force is always taken, and all unless it was there already
Taken == last = "add" =>
  LET c == IF n \in Ids(s.q) THEN s.q[At(s.q, n)] ELSE s.h[At(s.h, n)] IN
  (c.dm = "FORCE" => c.del = "none") /\ (c.dm = "ALL" => c.del \in {"none", "copy"} \/ \E j \in DOMAIN s.h : s.h[j].mark = "good" \/ s.h[j].dst = "GOOD")
=============================================================================
