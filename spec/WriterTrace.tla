----------------------------- MODULE WriterTrace -----------------------------
(***************************************************************************)
(* Files found after real downloads.  data.json: [direct, ev], events      *)
(*   post  id, enc, len     a file with parts of these lengths was posted  *)
(*   art   id, i, ok        the news servers delivered article i intact    *)
(*   file  id, exists, size, st   what is in the destination directory     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, TLCExt
W == INSTANCE Writer WITH N <- 1, Direct <- FALSE, Cache <- 0, art <- 0, place <- 0, saved <- 0, flag <- FALSE, inited <- FALSE, done <- FALSE, out <- {}
Data == JsonDeserialize("data.json")
VARIABLES t, l, s
vars == <<t, l, s>>
Init == t \in DOMAIN Data /\ l = 1 /\ s = <<>>
Step(e) ==
  CASE e.e = "post" -> s' = Append(s, [enc |-> e.enc, len |-> e.len, got |-> {}])
    [] e.e = "art" -> s' = IF e.ok THEN [s EXCEPT ![e.id].got = @ \cup {e.i}] ELSE s
    [] e.e = "file" -> /\ W!FileOk(Data[t].direct, s[e.id].enc, s[e.id].len, s[e.id].got, e.exists, e.size, e.st) = TRUE
                       /\ s' = s
    [] e.e = "extra" -> /\ e.names = <<>> /\ s' = s
Next == /\ l <= Len(Data[t].ev)
        /\ Step(Data[t].ev[l])
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Note == IF TLCGet(t) < l THEN TLCSet(t, l) ELSE TRUE
ASSUME \A i \in DOMAIN Data : TLCSet(i, 0)
Report == JsonSerialize("result.json", [i \in DOMAIN Data |-> TLCGet(i) - 1])
ModelInv == \A i \in DOMAIN s : s[i].got \subseteq DOMAIN s[i].len
Stuck == ~(t = Data[1].focus /\ l = Data[1].at)
=============================================================================
