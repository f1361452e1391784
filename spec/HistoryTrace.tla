---------------------------- MODULE HistoryTrace ----------------------------
(***************************************************************************)
(* Validation of recorded histories against History.tla.                   *)
(* data.json: traces [check, low, ev]; events, each with the state o seen  *)
(* when everything which can be downloaded was downloaded:                 *)
(*   add [def, top, ret]     hist [cmd, ids, arg, arg2, n, ret]            *)
(*   queue [cmd, ids]        server [gone]: articles not available now     *)
(*   days [n]                n days pass, old history items expire         *)
(*   pause [on]              downloading is paused or resumed              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, TLCExt
Data == JsonDeserialize("data.json")
VARIABLES t, l, s, ok
vars == <<t, l, s, ok>>
LowOf(x) == IF x \in DOMAIN Data[1].low THEN Data[1].low[x] ELSE x
INSTANCE History WITH Low <- LowOf

Status(c) == CASE c.k = "DUP" -> c.dst
               [] c.mark = "bad" -> "FAILURE/BAD" [] c.mark = "good" -> "SUCCESS/GOOD" [] c.mark = "success" -> "SUCCESS/MARK"
               [] c.del = "manual" -> "DELETED/MANUAL" [] c.del = "dupe" -> "DELETED/DUPE" [] c.del = "good" -> "DELETED/GOOD" [] c.del = "copy" -> "DELETED/COPY"
               [] Health(c) < 1000 -> "FAILURE/HEALTH"
               [] OTHER -> "SUCCESS/HEALTH"
ProjQ(c) == [id |-> c.id, name |-> c.name, cat |-> c.cat, dk |-> c.dk, ds |-> c.ds, dm |-> c.dm, par |-> c.par, health |-> Health(c),
             files |-> [i \in DOMAIN c.files |-> [name |-> c.files[i].name, paused |-> c.files[i].paused,
                         rem |-> Sum(LAMBDA a : IF a.st = "u" THEN a.sz ELSE 0, c.files[i].arts)]]]
ProjH(c) == IF c.k = "DUP"
            THEN [k |-> c.k, id |-> c.id, name |-> c.name, dk |-> c.dk, ds |-> c.ds, dm |-> c.dm, status |-> c.dst, day |-> c.time]
            ELSE [k |-> c.k, id |-> c.id, name |-> c.name, dk |-> c.dk, ds |-> c.ds, dm |-> c.dm, status |-> Status(c), day |-> c.time,
                  cat |-> c.cat, par |-> c.par, health |-> Health(c), parked |-> Parked(c), retry |-> (c.done # <<>>)]
Seen(st) == [q |-> Map(ProjQ, st.q), h |-> Map(ProjH, st.h)]
Agree(st, o) == Seen(st) = [q |-> o.q, h |-> o.h] /\ st.disk = {<<o.disk[i][1], o.disk[i][2]>> : i \in DOMAIN o.disk}

New(e) == LET d == e.def IN
  [k |-> "NZB", id |-> e.ret, name |-> d.name, cat |-> d.cat, dk |-> d.dk, ds |-> d.ds, dm |-> d.dm, par |-> d.par, fh |-> d.fh, ff |-> d.ff, src |-> d.src,
   files |-> Fresh(d.src, e.paused), done |-> <<>>, del |-> "none", mark |-> "none", dp |-> FALSE, post |-> FALSE, parking |-> FALSE, dir |-> "", moved |-> FALSE,
   time |-> 0, dst |-> "", size |-> d.size, bad |-> 0]
After(e) == CASE e.e = "add" -> {AddNzb(s, New(e), e.top)}
              [] e.e = "hist" -> LET r == HistEdit(s, e) IN IF r.ok = e.ret THEN {r.s} ELSE {}
              [] e.e = "queue" -> {QueueEdit(s, e.ids, e)}
              [] e.e = "server" -> {[s EXCEPT !.gone = Rng(e.gone)]}
              [] e.e = "days" -> {Expire([s EXCEPT !.now = @ + e.n], 7)}
              [] e.e = "pause" -> {[s EXCEPT !.paused = e.on]}

Init == t \in DOMAIN Data /\ l = 1 /\ s = [q |-> <<>>, h |-> <<>>, now |-> 0, disk |-> {}, gone |-> {}, check |-> Data[t].check, paused |-> FALSE] /\ ok = TRUE
Next == /\ l <= Len(Data[t].ev)
        /\ LET e == Data[t].ev[l] IN \E a \in UNION {Settle(x) : x \in After(e)} : (Agree(a, e.o) = TRUE) /\ s' = a
        /\ l' = l + 1 /\ t' = t /\ ok' = ok
Spec == Init /\ [][Next]_vars
Note == IF TLCGet(t) < l THEN TLCSet(t, l) ELSE TRUE
ASSUME \A i \in DOMAIN Data : TLCSet(i, 0)
Report == JsonSerialize("result.json", [i \in DOMAIN Data |-> TLCGet(i) - 1])
ModelInv == Ids(s.q) \cap Ids(s.h) = {} /\ Cardinality(Ids(s.q)) = Len(s.q) /\ Cardinality(Ids(s.h)) = Len(s.h)
Stuck == ~(t = Data[1].focus /\ l = Data[1].at)
=============================================================================
