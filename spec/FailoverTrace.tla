---------------------------- MODULE FailoverTrace ----------------------------
(***************************************************************************)
(* Requests seen by scripted news servers against Failover.tla.            *)
(* data.json: [R, block, servers, arts, ev]; block: servers are blocked    *)
(* for a while after a failed connection.  Events:                         *)
(*   req  a s      article a asked at server s                             *)
(*   res  a s r    answered                                                *)
(*   set  s on     server switched on or off                               *)
(*   down s        connections to s are refused from now on                *)
(*   clear         all servers reachable, the time of blocking is over     *)
(*   quiet ok bad  nothing changes any more; counts shown (-1: not shown)  *)
(*   final ok bad stats   the collection is in history                     *)
(* View "order": what is asked where.  View "conn": limits and use of free *)
(* connections.                                                            *)
(* An answer "cut" is lost in the middle; the lost connection is noticed   *)
(* with the next request on it.                                            *)
(***************************************************************************)
EXTENDS Failover, Json, TLC, TLCExt
CONSTANT View
Data == JsonDeserialize("data.json")
VARIABLES t, l, C, A, shaky, last, lim
vars == <<t, l, C, A, shaky, last, lim>>

Limit(c) == LET S == {i \in DOMAIN c : c[i].act /\ Norm(c, i) \in {0, 1}}
                Sum[X \in SUBSET S] == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN c[x].conns + Sum[X \ {x}]
            IN 2 + Sum[S]
Init == /\ t \in DOMAIN Data /\ l = 1
        /\ C = Data[t].servers
        /\ A = [i \in DOMAIN Data[t].arts |-> NewArt(Data[t].arts[i])]
        /\ shaky = {}
        /\ last = [i \in DOMAIN A |-> [s \in DOMAIN C |-> ""]]
        /\ lim = Limit(C)

Maybe == IF Data[t].block THEN {i \in shaky : C[i].opt} ELSE {}
HeldAt(i) == {k \in DOMAIN A : A[k].st = "held" /\ A[k].at = i}
R == Data[t].R

Req(e) == /\ MayAsk(C, A[e.a], e.s, Maybe, shaky)
          /\ View = "conn" => Cardinality(HeldAt(e.s)) < C[e.s].conns
          /\ A' = [A EXCEPT ![e.a] = Ask(C, Start(A[e.a], R), e.s)]
          /\ UNCHANGED <<C, shaky, last, lim>>
Res(e) == /\ A[e.a].st = "held" /\ A[e.a].at = e.s
          /\ \E b \in Answer(C, A[e.a], IF e.r = "cut" THEN "fail" ELSE e.r, R, shaky) :
               /\ A' = [A EXCEPT ![e.a] = b]
               /\ last' = [last EXCEPT ![e.a] = IF b.st = "new" THEN [s \in DOMAIN C |-> ""]
                                                ELSE IF e.r = "cerr" THEN @ ELSE [@ EXCEPT ![e.s] = IF e.r = "ok" THEN "s" ELSE "f"]]
          /\ shaky' = IF e.r \in {"cerr", "cut"} THEN shaky \cup {e.s} ELSE shaky
          /\ UNCHANGED <<C, lim>>
Set(e) == /\ shaky = {}
          /\ C' = [C EXCEPT ![e.s].act = e.on]
          /\ A' = [k \in DOMAIN A |-> IF A[k].st = "run" /\ ~Exhausted(C, A[k], {}) THEN NewArt(A[k].old)
                                      ELSE IF A[k].st = "held" THEN [A[k] EXCEPT !.dirty = TRUE] ELSE A[k]]
          /\ last' = [k \in DOMAIN A |-> IF A'[k].st = "new" THEN [s \in DOMAIN C |-> ""] ELSE last[k]]
          /\ lim' = LET n == Limit(C') IN IF n < lim THEN n ELSE lim
          /\ UNCHANGED shaky
Down(e) == shaky' = shaky \cup {e.s} /\ UNCHANGED <<C, A, last, lim>>
\* What happened unseen while servers could not be reached: an article for which only a blocked optional server was left may
\* have been given up (G), the next attempt need not be at the same server any more (D), attempts may have been given back (E)
Clear == /\ shaky' = {}
         /\ LET run == {k \in DOMAIN A : A[k].st = "run"} IN
            \E G \in SUBSET {k \in DOMAIN A : A[k].st \in {"run", "new"} /\ Exhausted(C, A[k], Maybe) /\ ~Exhausted(C, A[k], {})} :
            \E D \in SUBSET {k \in run : A[k].want \in shaky} :
            \E E \in SUBSET {k \in run : A[k].rem < R /\ \E i \in shaky : C[i].opt} :
              A' = [k \in DOMAIN A |-> IF k \in G THEN [A[k] EXCEPT !.st = "failed", !.want = 0]
                                       ELSE [A[k] EXCEPT !.want = IF k \in D \cup E THEN 0 ELSE @, !.rem = IF k \in E THEN R ELSE @]]
         /\ UNCHANGED <<C, last, lim>>

Oks == {k \in DOMAIN A : A[k].st = "ok"}
\* articles which went through all servers
Free4(k) == A[k].want = 0 \/ A[k].want \in shaky \/ A[k].want \in Out(C, Expired(C, A[k]))
Ended == {k \in DOMAIN A : (A[k].st = "failed") \/ (A[k].st = "new" /\ Exhausted(C, A[k], Maybe))
                           \/ (A[k].st = "run" /\ Free4(k) /\ Exhausted(C, A[k], Maybe))}
Waiting == {k \in DOMAIN A : A[k].st = "run"} \ Ended
Free(i) == Cardinality(HeldAt(i)) < C[i].conns
\* whom a waiting article can ask for sure; a server out of retention is passed only when it has a free connection
Sure(k) == {i \in DOMAIN C : /\ MayAsk(C, A[k], i, {}, {})
                             /\ \A j \in Expired(C, A[k]) \ Out(C, A[k].failed) : Norm(C, j) < Norm(C, i) => Free(j)
                             /\ A[k].old => ~\E j \in DOMAIN C : C[j].ret /\ Same(C, i, j)}
Busy == \* every connection is used for which there is something to do
  shaky = {} =>
    /\ \A k \in Waiting : \A i \in Sure(k) : ~Free(i)
    /\ \A k \in Waiting : Sure(k) # {} \/ A[k].old
    /\ (\E k \in DOMAIN A : A[k].st = "new") /\ (\A k \in DOMAIN A : A[k].st = "new" => Expired(C, A[k]) = {}) /\ Cardinality({k \in DOMAIN A : A[k].st = "held"} \cup Waiting) < lim
         => \A i \in OnLevel(C, 0) : C[i].act => ~Free(i)
Gone == {k \in DOMAIN A : A[k].st = "failed"}
Quiet(e) == /\ View = "conn" => Busy
            /\ IF e.ok < 0 THEN A' = A
               ELSE /\ shaky = {} => e.ok = Cardinality(Oks)
                    \* which of the articles that may have ended did so (a server out of retention is passed when it has a free
                    \* connection, an optional server when it is blocked)
                    /\ \E G \in SUBSET (Ended \ Gone) :
                         /\ Cardinality(G \cup Gone) = e.bad
                         /\ shaky = {} => \A k \in Ended \ (G \cup Gone) : Expired(C, A[k]) # {}
                         /\ A' = [k \in DOMAIN A |-> IF k \in G THEN [A[k] EXCEPT !.st = "failed", !.want = 0] ELSE A[k]]
            /\ lim' = Limit(C)
            /\ UNCHANGED <<C, shaky, last>>
Final(e) == /\ DOMAIN A = Oks \cup Ended
            /\ e.ok = Cardinality(Oks) /\ e.bad = Cardinality(Ended)
            /\ \A i \in DOMAIN C : /\ e.stats[i][1] = Cardinality({k \in DOMAIN A : last[k][i] = "s"})
                                   /\ e.stats[i][2] = Cardinality({k \in DOMAIN A : last[k][i] = "f"})
            /\ UNCHANGED <<C, A, shaky, last, lim>>
Next == /\ l <= Len(Data[t].ev)
        /\ LET e == Data[t].ev[l] IN
             CASE e.e = "req" -> Req(e)
               [] e.e = "res" -> Res(e)
               [] e.e = "set" -> Set(e)
               [] e.e = "down" -> Down(e)
               [] e.e = "clear" -> Clear
               [] e.e = "quiet" -> Quiet(e)
               [] e.e = "final" -> Final(e)
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Note == IF TLCGet(t) < l THEN TLCSet(t, l) ELSE TRUE
ASSUME \A i \in DOMAIN Data : TLCSet(i, 0)
Report == JsonSerialize("result.json", [i \in DOMAIN Data |-> TLCGet(i) - 1])
\* in every state: no server is used by more articles than it has connections, nothing is held at a server of no part
ModelInv == \A i \in DOMAIN C : View = "conn" => Cardinality(HeldAt(i)) <= C[i].conns
Stuck == ~(t = Data[1].focus /\ l = Data[1].at)
=============================================================================
