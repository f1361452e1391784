----------------------------- MODULE FailoverMC -----------------------------
(***************************************************************************)
(* One article on every server set up to three servers, every answer.      *)
(* What the property demands is stated on the history of answers alone     *)
(* (asked), and has to follow from the rules of Failover.tla.              *)
(***************************************************************************)
EXTENDS Failover, TLC
CONSTANTS NS, R, MaxConnErr
VARIABLES C, a, asked, ce
vars == <<C, a, asked, ce>>
Servers == [level : 0 .. 2, group : 0 .. 1, opt : BOOLEAN, ret : BOOLEAN, conns : {1}, act : BOOLEAN]
Init == /\ C \in [1 .. NS -> Servers]
        /\ \E i \in 1 .. NS : C[i].act /\ C[i].level = MinLevel(C)
        /\ \E old \in BOOLEAN : a = Start(NewArt(old), R)
        /\ asked = [i \in 1 .. NS |-> <<>>] /\ ce = 0
Maybe == {i \in 1 .. NS : C[i].opt /\ \E k \in DOMAIN asked[i] : asked[i][k] = "cerr"}
AskAny == \E i \in 1 .. NS : MayAsk(C, a, i, Maybe, {}) /\ a' = Ask(C, a, i) /\ UNCHANGED <<C, asked, ce>>
AnswerAny == /\ a.st = "held"
             /\ \E r \in {"ok", "nf", "crc", "fail", "cerr"} :
                  /\ r = "cerr" => ce < MaxConnErr
                  /\ a' \in Answer(C, a, r, R, {})
                  /\ asked' = [asked EXCEPT ![a.at] = Append(@, r)]
                  /\ ce' = IF r = "cerr" THEN ce + 1 ELSE ce
             /\ UNCHANGED C
GiveUp == a.st = "run" /\ a.want = 0 /\ Exhausted(C, a, Maybe) /\ a' = [a EXCEPT !.st = "failed"] /\ UNCHANGED <<C, asked, ce>>
Next == AskAny \/ AnswerAny \/ GiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Count(i, r) == Cardinality({k \in DOMAIN asked[i] : asked[i][k] = r})
\* the same for a server and the members of its group on the same level
Sum[S \in SUBSET (1 .. NS), r \in {"nf", "crc", "fail", "cerr"}] == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Count(x, r) + Sum[S \ {x}, r]
Grp(i) == {j \in 1 .. NS : Same(C, i, j)}
\* the server (or its group) was tried as often as configured
Tried(i) == Sum[Grp(i), "nf"] + Sum[Grp(i), "crc"] > 0 \/ Sum[Grp(i), "fail"] >= R
Excused(i) == \/ ~Usable(C[i])
              \/ a.old /\ \E j \in Grp(i) : C[j].ret /\ Usable(C[j])
              \/ C[i].opt /\ Count(i, "cerr") > 0
              \* the attempts left when a connection is lost are used up at whichever server comes next
              \/ ce > 0 /\ Sum[Grp(i), "fail"] > 0
\* failed only at the end
FailedAtEnd == a.st = "failed" => \A i \in 1 .. NS : Tried(i) \/ Excused(i)
\* never asked: inactive servers, servers out of retention
NeverAsked == \A i \in 1 .. NS : asked[i] # <<>> => Usable(C[i]) /\ ~(a.old /\ C[i].ret)
\* a server which does not have it is not asked again, neither is its group
Once == \A i \in 1 .. NS : /\ Sum[Grp(i), "nf"] + Sum[Grp(i), "crc"] <= 1
                           /\ Sum[Grp(i), "fail"] <= R * (1 + ce)      \* a lost connection gives back the attempts
                           /\ ce = 0 /\ Sum[Grp(i), "fail"] = R => Sum[Grp(i), "nf"] + Sum[Grp(i), "crc"] = 0
\* a higher level is used only when the lower ones are through
InOrder == a.st = "held" => \A i \in 1 .. NS : C[i].level < C[a.at].level => Tried(i) \/ Excused(i)
\* while there is something to ask the article goes on: it stops only asked, failed or downloaded
NoDead == a.st = "run" => ENABLED Next
Ends == <>(a.st \in {"ok", "failed"})
=============================================================================
