--------------------------- MODULE DownloadTrace ---------------------------
(***************************************************************************)
(* Validation of recorded download histories.  data.json: sequence of      *)
(* traces [attr, rank, lname, conns, ev]; events                           *)
(*   add, edit, restart (as in QueueTrace)                                 *)
(*   pause / resume         the queue is paused / resumed                  *)
(*   done  [mids, res]      the answers for requested articles: ok | bad    *)
(*   settle [mids]          articles requested until all connections are   *)
(*                          busy or nothing is left to be requested        *)
(* each with the observed state o, or without one (o absent).              *)
(***************************************************************************)
EXTENDS Download, Json, TLCExt
CONSTANT View

Data == JsonDeserialize("data.json")
VARIABLES t, l, q, h, mg, mf, pd, run, fr   \* fr: running articles requested with force priority
vars == <<t, l, q, h, mg, mf, pd, run, fr>>

Ev(i, k) == Data[i].ev[k]
X(i, e) == [attr |-> Data[i].attr, rank |-> Data[i].rank, lname |-> Data[i].lname, newId |-> 0]
Conns == Data[t].conns

EditFile(f) == <<f.id, f.name, f.sz, f.rem, f.time, f.paused>>
EditGroup(g) == <<g.id, g.name, g.cat, g.prio, g.dk, g.ds, g.dm, g.par, [i \in DOMAIN g.files |-> EditFile(g.files[i])]>>
TotGroup(g) == <<g.id, FileCount(g), Size(g), RemSize(g), PausedSize(g), Len(g.files), RemPars(g), TotArts(g), OkArts(g), BadArts(g),
                 Health(g), Critical(g), g.minT, g.maxT>>
ObsTot(g) == <<g.id, g.fc, g.size, g.remsz, g.psize, g.rfc, g.rpc, g.tot, g.ok, g.bad, g.health, g.crit, g.mint, g.maxt>>
AccGroup(g) == <<g.id, OkArts(g), BadArts(g), Health(g), [i \in DOMAIN g.files |-> <<g.files[i].id, g.files[i].rem>>]>>
ObsAcc(g) == <<g.id, g.ok, g.bad, g.health, [i \in DOMAIN g.files |-> <<g.files[i].id, g.files[i].rem>>]>>
Seq2(Op(_), s) == [i \in DOMAIN s |-> Op(s[i])]
HistProj(s) == [i \in DOMAIN s |-> <<s[i].id, s[i].name, s[i].cat, s[i].status>>]
HistAcc(s) == [i \in DOMAIN s |-> <<s[i].id, s[i].status, s[i].acc>>]

AgreeEdit(mq, mh, o) == Seq2(EditGroup, mq) = Seq2(EditGroup, o.q) /\ HistProj(mh) = HistProj(o.h)
AgreeTot(mq, o) == /\ Seq2(TotGroup, mq) = Seq2(ObsTot, o.q)
                   /\ o.remaining = SumF(LAMBDA g : RemSize(g) - PausedSize(g), mq)
                   /\ o.forced = SumF(LAMBDA g : IF g.prio >= 900 THEN RemSize(g) - PausedSize(g) ELSE 0, mq)
AgreeAcc(mq, mh, o) == Seq2(AccGroup, mq) = Seq2(ObsAcc, o.q) /\ HistAcc(mh) = HistAcc(o.h)
AgreeIds(mq, mh, o) ==
  /\ UniqueIds(o.q, o.h)
  /\ IdsOf(mq) = IdsOf(o.q) /\ IdsOf(mh) = IdsOf(o.h)
Agree(mq, mh, e) ==
  IF "o" \notin DOMAIN e THEN TRUE ELSE
  LET o == e.o IN
  CASE View = "edit" -> AgreeEdit(mq, mh, o)
    [] View = "totals" -> AgreeTot(mq, o)
    [] View = "acc" -> AgreeAcc(mq, mh, o)
    [] View = "ids" -> AgreeIds(mq, mh, o)
    [] View = "order" -> TRUE
    [] View = "all" -> AgreeEdit(mq, mh, o) /\ AgreeTot(mq, o) /\ AgreeAcc(mq, mh, o)

NewGroups(o) == IdsOf(o.q) \ IdsOf(q)
Add(e) ==
  /\ Cardinality(NewGroups(e.o)) = 1
  /\ LET gid == CHOOSE i \in NewGroups(e.o) : TRUE
         og == Find(e.o.q, gid)
         g0 == [id |-> gid, name |-> e.def.name, cat |-> e.def.cat, prio |-> e.def.prio, dk |-> e.def.dk, ds |-> e.def.ds, dm |-> e.def.dm,
                par |-> e.def.par, minT |-> MinTimeOf(e.def.files), maxT |-> MaxTimeOf(e.def.files), done |-> NoDone,
                files |-> [k \in DOMAIN e.def.files |-> [id |-> og.files[k].id] @@ e.def.files[k]]]
         g1 == IF e.paused THEN MapFiles(g0, LAMBDA f : [f EXCEPT !.paused = TRUE]) ELSE g0
         g == PauseExtraPars(X(t, e).attr, g1, IdsOf(g1.files))
     IN /\ e.ret = gid /\ gid > mg /\ Len(og.files) = Len(e.def.files) /\ \A f \in Range1(og.files) : f.id > mf
        /\ q' = AddGroup(q, g, e.top) /\ h' = h /\ mg' = gid
        /\ mf' = CHOOSE m \in IdsOf(og.files) : \A k \in IdsOf(og.files) : k <= m
  /\ UNCHANGED <<pd, run, fr>>

NewIn(e) == IF "o" \in DOMAIN e THEN NewGroups(e.o) ELSE {}
DoEdit(e) ==
  /\ IF e.c.cmd = "FileSplit" /\ NewIn(e) # {}
     THEN /\ Cardinality(NewIn(e)) = 1 /\ \A i \in NewIn(e) : i > mg
     ELSE NewIn(e) = {}
  /\ LET nid == IF NewIn(e) = {} THEN 0 ELSE CHOOSE i \in NewIn(e) : TRUE
         x == [X(t, e) EXCEPT !.newId = nid]
     IN \E r \in DEdit(q, h, e.c, x) :
          /\ (View \in {"edit", "all"}) => r.ret = e.ret
          /\ q' = r.q /\ h' = r.h /\ mg' = Max2(mg, nid) /\ mf' = mf
  /\ run' = {m \in run : Known(q', m)} /\ pd' = pd /\ fr' = fr \cap run'

MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A k \in S : k <= m
RECURSIVE Reset(_, _)
Reset(qq, S) == IF S = {} THEN qq ELSE LET m == CHOOSE m \in S : TRUE IN Reset(SetSt(qq, m, "u"), S \ {m})
Restart(e) == /\ q' = Reset(q, run) /\ run' = {} /\ fr' = {} /\ h' = h /\ pd' = e.pd
              /\ mg' = MaxOf(IdsOf(q) \cup IdsOf(h)) /\ mf' = MaxOf(FileIdsAlive(q, h))

\* The free connections take the next articles.  The files of a collection which are wanted only now for a manual par-check
\* (man = 2) may be considered a little later: after `late` of the articles.
RECURSIVE TakeN(_, _, _)
TakeN(qq, late, n) ==
  IF n = 0 THEN qq
  ELSE LET v == IF late THEN [i \in DOMAIN qq |-> IF qq[i].done.man = 2 THEN MapFiles(qq[i], LAMBDA f : [f EXCEPT !.paused = TRUE]) ELSE qq[i]] ELSE qq
       IN IF AnyNext(v, pd) THEN TakeN(SetSt(qq, NextMid(v, pd), "r"), late, n - 1) ELSE qq
RunningMids(qq) == UNION {UNION {{f.arts[k].mid : k \in {k2 \in DOMAIN f.arts : f.arts[k2].st = "r"}} : f \in Range1(qq[i].files)} : i \in DOMAIN qq}
ManDone(qq) == [i \in DOMAIN qq |-> [qq[i] EXCEPT !.done.man = Min2(@, 1)]]
Settle(e) ==
  LET new == Range1(e.mids) IN
  /\ \E late \in (IF \E i \in DOMAIN q : q[i].done.man = 2 THEN 0 .. Len(e.mids) ELSE {0}) :
       LET q1 == TakeN(TakeN(q, TRUE, late), FALSE, Len(e.mids) - late)
       IN /\ RunningMids(q1) = run \cup new /\ Cardinality(run \cup new) = Cardinality(run) + Len(e.mids)
          /\ q' = ManDone(q1)
  /\ run' = run \cup new
  /\ Cardinality(run') <= Conns
  /\ Cardinality(run') < Conns => ~AnyNext(q', pd)                \* no connection is left idle
  /\ fr' = fr \cup {m \in new : q[Place1(q, m)[1]].prio >= ForcePriority}
  /\ UNCHANGED <<h, mg, mf, pd>>
\* a failed article is tried again later if the queue is paused and the collection has no force priority
RECURSIVE Results(_, _, _)
Results(s, e, o) == IF o = <<>> THEN s
                    ELSE LET mid == e.mids[Head(o)]
                             r == e.res[Head(o)]
                         IN Results(Result(s.q, s.h, mid, IF r = "bad" /\ pd /\ mid \notin fr THEN "again" ELSE r), e, Tail(o))
Done(e) == LET S == Range1(e.mids) IN
           /\ S \subseteq run
           /\ \E r \in {Results([q |-> q, h |-> h], e, o) : o \in SetToSeqs(DOMAIN e.mids)} : q' = r.q /\ h' = r.h   \* they end in any order
           /\ run' = run \ S /\ fr' = fr \ S /\ UNCHANGED <<mg, mf, pd>>
Pause(e) == pd' = TRUE /\ UNCHANGED <<q, h, mg, mf, run, fr>>
Resume(e) == pd' = FALSE /\ UNCHANGED <<q, h, mg, mf, run, fr>>

Init == t \in DOMAIN Data /\ l = 1 /\ q = <<>> /\ h = <<>> /\ mg = 0 /\ mf = 0 /\ pd = FALSE /\ run = {} /\ fr = {}
Next == /\ l <= Len(Data[t].ev)
        /\ LET e == Ev(t, l) IN
           /\ CASE e.e = "add" -> Add(e)
                [] e.e = "edit" -> DoEdit(e)
                [] e.e = "restart" -> Restart(e)
                [] e.e = "settle" -> Settle(e)
                [] e.e = "done" -> Done(e)
                [] e.e = "pause" -> Pause(e)
                [] e.e = "resume" -> Resume(e)
           /\ Agree(q', h', e)
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars

Note == IF TLCGet(t) < l THEN TLCSet(t, l) ELSE TRUE
ASSUME \A i \in DOMAIN Data : TLCSet(i, 0)
Report == JsonSerialize("result.json", [i \in DOMAIN Data |-> TLCGet(i) - 1])
ModelInv == UniqueIds(q, h) /\ TotalsSane(q)
Stuck == ~(t = Data[1].focus /\ l = Data[1].at)
=============================================================================
