------------------------------ MODULE ClockMC ------------------------------
(***************************************************************************)
(* Clock.tla with every sequence of steps of the clock of up to 89 minutes *)
(* from Saturday 22:00 to Monday 02:00: every process runs once for every  *)
(* due point which has passed, and states are those of the last due point. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
T == <<[h |-> 0, m |-> 0, days |-> {7}, cmd |-> "process", on |-> TRUE, arg |-> <<>>, id |-> 1],
       [h |-> 0, m |-> 30, days |-> {}, cmd |-> "download", on |-> FALSE, arg |-> <<>>, id |-> 5],
       [h |-> 1, m |-> 0, days |-> {1, 7}, cmd |-> "download", on |-> TRUE, arg |-> <<>>, id |-> 6],
       [h |-> 22, m |-> 59, days |-> {6, 7}, cmd |-> "process", on |-> TRUE, arg |-> <<>>, id |-> 2],
       [h |-> 23, m |-> 59, days |-> {}, cmd |-> "process", on |-> TRUE, arg |-> <<>>, id |-> 3]>>
CONSTANT Off
VARIABLE s
INSTANCE Clock WITH Tasks <- T, Paused0 <- FALSE, Rate0 <- 0, Srv0 <- {}
\* day 9 is a Saturday
Begin == 9 * 86400 + 22 * 3600 - Off
NegOff == -19800
End == Begin + 28 * 3600
Init == s = Start(Off, Begin)
Next == s.now < End /\ \E d \in {30, 60, 600, 1800, 3600, 5340} : s' \in At(s, s.now + d)
Spec == Init /\ [][Next]_s
Passed(i, to) == {d \in 9..11 : T[i].days = {} \/ WeekDay(d) \in T[i].days} \cap {d \in 9..11 : LET p == d * 86400 + T[i].h * 3600 + T[i].m * 60 IN Begin + Off < p /\ p <= to}
Once == \A i \in {1, 4, 5} : s.n[T[i].id] = Cardinality(Passed(i, s.last + Off))
Local == (s.last + Off) % 86400
State == (Local >= 1800 /\ Local < 3600) => s.dl
State2 == Local >= 3600 /\ WeekDay((s.last + Off) \div 86400) \in {1, 7} => ~s.dl
Late == s.last + Off > Begin + Off - 1 /\ \A i \in DOMAIN T : \A d \in Passed(i, s.now + Off) \ Passed(i, s.last + Off) : s.now \div 60 = s.last \div 60
=============================================================================
