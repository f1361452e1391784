------------------------------ MODULE TextTrace -----------------------------
(***************************************************************************)
(* Recorded conversations.  data.json: [ev], events                        *)
(*   set   form, items [id, text]   texts were given in that request format*)
(*   got   as, items [id, text]     texts returned as json, jsonp or xml   *)
(*   same  m, a, b                  one method answered in two formats:    *)
(*                                  flattened members [path, kind, text]   *)
(***************************************************************************)
EXTENDS Text, FiniteSets, Json, TLC, TLCExt
Data == JsonDeserialize("data.json")
VARIABLES t, l, s
vars == <<t, l, s>>
Init == t \in DOMAIN Data /\ l = 1 /\ s = <<>>
ViewAll(as, a) == [i \in DOMAIN a |-> [a[i] EXCEPT !.text = IF a[i].kind = "s" THEN View(as, @) ELSE @]]
Step(e) ==
  CASE e.e = "set" -> /\ (\A i \in DOMAIN e.items : Carries(e.form, e.items[i].text)) = TRUE
                      /\ s' = [i \in DOMAIN e.items |-> e.items[i].text]
    [] e.e = "got" -> /\ Len(e.items) = Len(s)
                      /\ (\A i \in DOMAIN s : e.items[i].text = View(e.as, s[i])) = TRUE
                      /\ s' = s
    [] e.e = "same" -> ViewAll("xml", e.a) = e.b /\ s' = s
Next == /\ l <= Len(Data[t].ev)
        /\ Step(Data[t].ev[l])
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Note == IF TLCGet(t) < l THEN TLCSet(t, l) ELSE TRUE
ASSUME \A i \in DOMAIN Data : TLCSet(i, 0)
Report == JsonSerialize("result.json", [i \in DOMAIN Data |-> TLCGet(i) - 1])
ModelInv == \A i \in DOMAIN s : s[i] # <<>>
Stuck == ~(t = Data[1].focus /\ l = Data[1].at)
=============================================================================
