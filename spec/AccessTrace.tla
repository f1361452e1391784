------------------------------ MODULE AccessTrace ------------------------------
(***************************************************************************)
(* Requests sent to the real program validated with Access.tla.            *)
(* data.json: [c, ev]; an event is the request with                        *)
(*   ans   kind of the answer      tok2  level whose token the answer has  *)
(*   leak  a secret occurs in it   len   it has a body                     *)
(*   obs   the state after it, seen over another connection                *)
(***************************************************************************)
EXTENDS Access, Json, TLC, TLCExt
Data == JsonDeserialize("data.json")
VARIABLES t, l, s
vars == <<t, l, s>>
Init == t \in DOMAIN Data /\ l = 1 /\ s = S0
Allowed(c, e) ==
  LET lv == Level(c, e)  a == Answer(c, e) IN
  /\ e.ans = a
  /\ e.tok2 = IF a \in {"401", "closed", "options", "400"} \/ e.http = "BIN" \/ lv = "none" THEN "" ELSE lv
  /\ a \in {"401", "closed", "options"} => ~e.len
  /\ (e.leak <=> a = "full")
Next == /\ l <= Len(Data[t].ev)
        /\ LET e == Data[t].ev[l]  c == Data[t].c IN
             /\ Allowed(c, e)
             /\ s' = Effect(c, e, s)
             /\ e.obs = s'
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Note == IF TLCGet(t) < l THEN TLCSet(t, l) ELSE TRUE
ASSUME \A i \in DOMAIN Data : TLCSet(i, 0)
Report == JsonSerialize("result.json", [i \in DOMAIN Data |-> TLCGet(i) - 1])
ModelInv == s.alive
Stuck == ~(t = Data[1].focus /\ l = Data[1].at)
=============================================================================
