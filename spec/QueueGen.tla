------------------------------ MODULE QueueGen ------------------------------
(***************************************************************************)
(* Generates sequences of queue commands: a random walk through the model, *)
(* written to gen.out for replay against the program.  data.json gives the *)
(* universe: defs (collections to add), names, cats, attr/rank/lname, and  *)
(* which commands to use.                                                  *)
(***************************************************************************)
EXTENDS NzbQueue, Json, CSV, Randomization
CONSTANT Depth
D == JsonDeserialize("data.json")
VARIABLES q, h, n, nf, ops, used, done
vars == <<q, h, n, nf, ops, used, done>>

X == [attr |-> D.attr, rank |-> D.rank, lname |-> D.lname, newId |-> n + 1]
Pick(s) == s[RandomElement(DOMAIN s)]
\* a random selection of ids, in random order, mostly existing ones
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET e == RandomElement(S) IN <<e>> \o Shuffle(S \ {e})
Selection(S) ==
  LET base == IF S = {} THEN <<>> ELSE Shuffle(RandomSubset(RandomElement(1 .. Min2(4, Cardinality(S))), S))
      dice == RandomElement(1 .. 12)
  IN CASE dice = 1 -> Append(base, 9999)
       [] dice = 2 /\ base # <<>> -> Append(base, base[1])
       [] dice = 3 -> <<9999>>
       [] OTHER -> base

Add ==
  /\ used < Len(D.defs)
  /\ LET def == D.defs[used + 1]
         top == RandomElement({TRUE, FALSE, FALSE})
         paused == RandomElement({TRUE, FALSE, FALSE})
         files == [k \in DOMAIN def.files |-> [id |-> nf + k] @@ def.files[k]]
         g0 == [id |-> n + 1, name |-> def.name, cat |-> def.cat, prio |-> def.prio, dk |-> def.dk, ds |-> def.ds, dm |-> def.dm,
                par |-> def.par, minT |-> MinTimeOf(def.files), maxT |-> MaxTimeOf(def.files), done |-> NoDone,
                files |-> [k \in DOMAIN files |-> IF paused THEN [files[k] EXCEPT !.paused = TRUE] ELSE files[k]]]
     IN /\ q' = AddGroup(q, PauseExtraPars(D.attr, g0, IdsOf(g0.files)), top)
        /\ ops' = Append(ops, [e |-> "add", def |-> used + 1, id |-> n + 1, top |-> top, paused |-> paused])
        /\ n' = n + 1 /\ nf' = nf + Len(def.files) /\ used' = used + 1 /\ h' = h

Command(cmd) ==
  LET isFile == cmd \in FileCmds
      S == IF isFile THEN (IF RandomElement(1 .. 4) = 1 THEN AllFileIds(q) ELSE IF q = <<>> THEN {} ELSE IdsOf(Pick(q).files)) ELSE IdsOf(q)
      sel == Selection(S)
      \* several files of a big selection
      ids == IF cmd = "GroupSort" /\ RandomElement(1 .. 3) = 1 THEN <<>> ELSE sel
      off == CASE cmd \in {"GroupMoveOffset", "FileMoveOffset"} -> RandomElement(-4 .. 4)
               [] cmd \in {"GroupMoveBefore", "GroupMoveAfter"} -> IF q = <<>> \/ RandomElement(1 .. 10) = 1 THEN 9999 ELSE Pick(q).id
               [] cmd = "GroupSetPriority" -> RandomElement({-100, -50, 0, 0, 50, 100, 900})
               [] cmd = "GroupSetDupeScore" -> RandomElement({-5, 0, 10, 1000})
               [] OTHER -> 0
      arg == CASE cmd \in {"GroupSetCategory", "GroupApplyCategory"} -> Pick(D.cats)
               [] cmd = "GroupSetName" -> Pick(D.names)
               [] cmd = "GroupSetDupeKey" -> Pick(D.dkeys)
               [] cmd = "GroupSetDupeMode" -> Pick(<<"SCORE", "ALL", "FORCE">>)
               [] cmd = "GroupSetParameter" -> Pick(D.pnames)
               [] cmd = "FileSplit" -> Pick(D.names)
               [] cmd = "GroupSort" -> Pick(<<"name", "size", "left", "age", "category", "priority">>)
               [] OTHER -> ""
      arg2 == CASE cmd = "GroupSetParameter" -> Pick(D.pvalues)
                [] cmd = "GroupSort" -> Pick(<<"asc", "desc", "auto">>)
                [] OTHER -> ""
      c == [cmd |-> cmd, ids |-> ids, off |-> off, arg |-> arg, arg2 |-> arg2]
  IN \E r \in Edit(q, h, c, X) :
       /\ q' = IF cmd = "GroupSortFiles"
               THEN [i \in DOMAIN r.q |-> IF r.q[i].id \in Range1(ids)
                       THEN [r.q[i] EXCEPT !.files = StableSort(LAMBDA a, b : FileLess(D.attr, a, b), @)] ELSE r.q[i]]
               ELSE r.q
       /\ h' = r.h
       /\ n' = IF n + 1 \in IdsOf(r.q) THEN n + 1 ELSE n
       /\ nf' = nf /\ used' = used
       /\ ops' = Append(ops, [e |-> "edit", c |-> c, newId |-> IF n' > n THEN n' ELSE 0])

Restart == ops' = Append(ops, [e |-> "restart"]) /\ UNCHANGED <<q, h, n, nf, used>>

Init == q = <<>> /\ h = <<>> /\ n = 0 /\ nf = 0 /\ ops = <<>> /\ used = 0 /\ done = FALSE
\* first fill the queue, then walk; one random successor per step
Walk(dice) ==
  IF used < Len(D.defs) /\ (Len(ops) < D.fill \/ q = <<>> \/ dice <= 8) THEN Add
  ELSE IF D.restart /\ dice > 100 - D.restartp THEN Restart
  ELSE Command(Pick(D.cmds))
Next == \/ Len(ops) < Depth /\ Walk(RandomElement(1 .. 100)) /\ done' = FALSE
        \/ Len(ops) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<q, h, n, nf, ops, used>>
Spec == Init /\ [][Next]_vars
Emit == IF done THEN CSVWrite("%1$s", <<ToJson(ops)>>, "gen.out") ELSE TRUE
Inv == UniqueIds(q, h) /\ TotalsSane(q)
=============================================================================
