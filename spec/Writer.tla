------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* How the articles of one file get into the destination file: written     *)
(* directly into it (Direct), kept in the article cache, or put into       *)
(* temporary files which are joined at the end.                            *)
(*  art    what became of the article                                      *)
(*  place  where its data is now                                           *)
(*  saved  what the partial state on disk says (written before a regular   *)
(*         end and now and then)                                           *)
(*  flag   the mark on disk that the cache is in use                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* the file which has to be there at the end, for the set D of delivered parts with the lengths len
RECURSIVE Sum(_, _)
Sum(len, n) == IF n = 0 THEN 0 ELSE Sum(len, n - 1) + len[n]
Last(D) == CHOOSE i \in D : \A j \in D : j <= i
FileSize(direct, enc, len, D) ==
  IF direct /\ enc = "yenc" THEN Sum(len, Len(len)) ELSE Sum(len, Last(D))
\* st: for each part of the file found on disk exact | zero | absent | wrong
FileOk(direct, enc, len, D, exists, size, st) ==
  IF D = {} THEN TRUE       \* nothing is promised
  ELSE /\ exists
       /\ size = FileSize(direct, enc, len, D)
       /\ \A i \in DOMAIN len : IF i \in D THEN st[i] = "exact"
                              \* bytes of a damaged article may have reached the final file before the damage was seen
                              ELSE st[i] \in IF direct /\ enc = "yenc" THEN {"zero", "absent", "exact", "wrong"} ELSE {"zero", "absent", "exact"}

-----------------------------------------------------------------------------
CONSTANTS N, Direct, Cache
VARIABLES art, place, saved, flag, inited, done, out
vars == <<art, place, saved, flag, inited, done, out>>
Parts == 1..N
Cached == {i \in Parts : place[i] = "cache"}
Init == /\ art = [i \in Parts |-> "todo"] /\ place = [i \in Parts |-> "none"] /\ saved = [i \in Parts |-> "todo"]
        /\ flag = FALSE /\ inited = FALSE /\ done = FALSE /\ out = {}
\* room in the cache depends on other files too
Deliver(i) == /\ ~done /\ art[i] = "todo"
              /\ art' = [art EXCEPT ![i] = "ok"]
              /\ inited' = Direct
              /\ \E p \in (IF Cardinality(Cached) < Cache THEN {"cache"} ELSE {}) \cup {IF Direct THEN "out" ELSE "temp"} :
                    place' = [place EXCEPT ![i] = p] /\ flag' = (flag \/ p = "cache")
              /\ UNCHANGED <<saved, done, out>>
\* an attempt which failed in the middle leaves nothing, but it may have created the file
Attempt(i) == /\ ~done /\ art[i] = "todo" /\ inited' = Direct /\ UNCHANGED <<art, place, saved, flag, done, out>>
Fail(i) == /\ ~done /\ art[i] = "todo" /\ art' = [art EXCEPT ![i] = "bad"] /\ UNCHANGED <<place, saved, flag, inited, done, out>>
Flushed == [i \in Parts |-> IF place[i] = "cache" THEN (IF Direct /\ inited THEN "out" ELSE "temp") ELSE place[i]]
Flush == /\ ~done /\ Cached # {} /\ place' = Flushed /\ flag' = FALSE /\ UNCHANGED <<art, saved, inited, done, out>>
Save == /\ ~done /\ \E i \in Parts : art[i] = "todo"
        /\ saved' = art /\ UNCHANGED <<art, place, flag, inited, done, out>>
Restart == /\ ~done /\ \E i \in Parts : art[i] = "todo"
           /\ place' = Flushed /\ flag' = FALSE /\ saved' = art /\ inited' = FALSE /\ UNCHANGED <<art, done, out>>
\* after a crash with data in the cache the partial states are not used
Crash == /\ ~done /\ inited' = FALSE /\ flag' = FALSE
         /\ art' = IF flag THEN [i \in Parts |-> "todo"] ELSE saved
         /\ place' = [i \in Parts |-> IF art'[i] = "ok" THEN place[i] ELSE "none"]
         /\ saved' = art' /\ UNCHANGED <<done, out>>
Complete == /\ ~done /\ \A i \in Parts : art[i] # "todo"
            /\ LET prev == Direct /\ \E i \in Parts : place[i] = "out"
                   direct == Direct /\ (inited \/ prev)
               IN out' = {i \in Parts : art[i] = "ok" /\ place[i] \in (IF direct THEN {"out", "cache"} ELSE {"temp", "cache"})}
            /\ done' = TRUE /\ flag' = FALSE /\ place' = [i \in Parts |-> "none"] /\ UNCHANGED <<art, saved, inited>>
Next == \/ \E i \in Parts : Deliver(i) \/ Attempt(i) \/ Fail(i)
        \/ Flush \/ Save \/ Restart \/ Crash \/ Complete
Spec == Init /\ [][Next]_vars /\ WF_vars(Complete)
\* every delivered part is in the file, and nothing else
Exact == done => out = {i \in Parts : art[i] = "ok"}
\* what is marked as delivered is somewhere, and nothing the partial state promises can get lost
Kept == /\ \A i \in Parts : ~done /\ art[i] = "ok" => place[i] # "none"
        /\ ~flag => \A i \in Parts : saved[i] = "ok" => art[i] = "ok"
=============================================================================
