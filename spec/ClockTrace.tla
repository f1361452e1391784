----------------------------- MODULE ClockTrace -----------------------------
(***************************************************************************)
(* Validation of recorded sessions against Clock.tla. data.json: traces    *)
(* [off, tasks, paused, rate, srv, ev]; events start [now], restart [now], *)
(* at [now], cmd [cmd, arg], each with the state o seen afterwards.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, TLCExt
Data == JsonDeserialize("data.json")
VARIABLES t, l, s
vars == <<t, l, s>>
TaskOf(k) == [h |-> k.h, m |-> k.m, days |-> {k.days[i] : i \in DOMAIN k.days}, cmd |-> k.cmd, on |-> k.on, arg |-> k.arg, id |-> k.id]
TasksOf(x) == [i \in DOMAIN x.tasks |-> TaskOf(x.tasks[i])]
C(x) == INSTANCE Clock WITH Tasks <- TasksOf(x), Paused0 <- x.paused, Rate0 <- x.rate, Srv0 <- {x.srv[i] : i \in DOMAIN x.srv}
After(x, e) == CASE e.e = "start" -> {C(x)!Start(x.off, e.now)}
                 [] e.e = "restart" -> {C(x)!Again([s EXCEPT !.now = e.now])}
                 [] e.e = "at" -> C(x)!At(s, e.now)
                 [] e.e = "cmd" -> {C(x)!Command(s, e)}
Seen(a) == [dl |-> a.dl, post |-> a.post, scan |-> a.scan, rate |-> a.rate, n |-> a.n, resume |-> a.resume]
Agree(a, o) == Seen(a) = [f \in DOMAIN Seen(a) |-> o[f]] /\ a.srv = {o.srv[i] : i \in DOMAIN o.srv}
Init == t \in DOMAIN Data /\ l = 1 /\ s = [now |-> 0]
Next == /\ l <= Len(Data[t].ev)
        /\ LET x == Data[t] e == x.ev[l] IN \E a \in After(x, e) : (Agree(a, e.o) = TRUE) /\ s' = a
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Note == IF TLCGet(t) < l THEN TLCSet(t, l) ELSE TRUE
ASSUME \A i \in DOMAIN Data : TLCSet(i, 0)
Report == JsonSerialize("result.json", [i \in DOMAIN Data |-> TLCGet(i) - 1])
ModelInv == TRUE
Stuck == ~(t = Data[1].focus /\ l = Data[1].at)
=============================================================================
