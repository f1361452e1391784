----------------------------- MODULE QueueTrace -----------------------------
(***************************************************************************)
(* Validation of recorded histories of queue commands against NzbQueue.    *)
(* data.json: sequence of traces, each [attr, rank, lname, ev]; an event   *)
(* has the command with its arguments and the queue and history observed   *)
(* after it.  View selects what has to agree with the model:               *)
(*   edit     order and attributes of groups and files, history, result    *)
(*   totals   the totals of each group                                     *)
(*   ids      uniqueness and freshness of ids, one place for each group    *)
(*   all      everything                                                   *)
(***************************************************************************)
EXTENDS NzbQueue, Json, TLCExt
CONSTANT View

Data == JsonDeserialize("data.json")
VARIABLES t, l, q, h, mg, mf
vars == <<t, l, q, h, mg, mf>>

Ev(i, k) == Data[i].ev[k]
X(i, e) == [attr |-> Data[i].attr, rank |-> Data[i].rank, lname |-> Data[i].lname,
            newId |-> IF "newId" \in DOMAIN e THEN e.newId ELSE 0]

\* ---- projections compared with the observation
EditFile(f) == <<f.id, f.name, f.sz, f.rem, f.time, f.paused>>
EditGroup(g) == <<g.id, g.name, g.cat, g.prio, g.dk, g.ds, g.dm, g.par, [i \in DOMAIN g.files |-> EditFile(g.files[i])]>>
ObsEdit(g) == EditGroup(g)
TotGroup(g) == <<g.id, FileCount(g), Size(g), RemSize(g), PausedSize(g), Len(g.files), RemPars(g), TotArts(g), OkArts(g), BadArts(g),
                 Health(g), Critical(g), g.minT, g.maxT>>
ObsTot(g) == <<g.id, g.fc, g.size, g.remsz, g.psize, g.rfc, g.rpc, g.tot, g.ok, g.bad, g.health, g.crit, g.mint, g.maxt>>
Seq2(Op(_), s) == [i \in DOMAIN s |-> Op(s[i])]
HistProj(s) == [i \in DOMAIN s |-> <<s[i].id, s[i].name, s[i].cat, s[i].status>>]

AgreeEdit(mq, mh, o) == Seq2(EditGroup, mq) = Seq2(ObsEdit, o.q) /\ HistProj(mh) = HistProj(o.h)
AgreeTot(mq, o) == /\ Seq2(TotGroup, mq) = Seq2(ObsTot, o.q)
                   /\ o.remaining = SumF(LAMBDA g : RemSize(g) - PausedSize(g), mq)
                   /\ o.forced = SumF(LAMBDA g : IF g.prio >= 900 THEN RemSize(g) - PausedSize(g) ELSE 0, mq)
\* the multiset of ids, without regard to order and contents
AgreeIds(mq, mh, o) ==
  /\ UniqueIds(o.q, o.h)
  /\ IdsOf(mq) = IdsOf(o.q) /\ IdsOf(mh) = IdsOf(o.h)
  /\ \A i \in DOMAIN mq : IdsOf(mq[i].files) = IdsOf(Find(o.q, mq[i].id).files)
Agree(mq, mh, o) ==
  CASE View = "edit" -> AgreeEdit(mq, mh, o)
    [] View = "totals" -> AgreeTot(mq, o)
    [] View = "ids" -> AgreeIds(mq, mh, o)
    [] View = "all" -> AgreeEdit(mq, mh, o) /\ AgreeTot(mq, o) /\ AgreeIds(mq, mh, o)

\* ---- how the model takes a step
WithIds(def, o, gid) ==   \* the ids given to a new group and its files are taken from the observation
  LET og == Find(o.q, gid) IN
  [id |-> gid, name |-> def.name, cat |-> def.cat, prio |-> def.prio, dk |-> def.dk, ds |-> def.ds, dm |-> def.dm,
   par |-> def.par, minT |-> MinTimeOf(def.files), maxT |-> MaxTimeOf(def.files), done |-> NoDone,
   files |-> [k \in DOMAIN def.files |-> [id |-> og.files[k].id] @@ def.files[k]]]

NewGroups(o) == IdsOf(o.q) \ IdsOf(q)
Add(e) ==
  LET new == NewGroups(e.o) IN
  /\ Cardinality(new) = 1
  /\ LET gid == CHOOSE i \in new : TRUE
         og == Find(e.o.q, gid)
     IN /\ e.ret = gid /\ gid > mg                              \* the id returned is the id of the group, never used before
        /\ Len(og.files) = Len(e.def.files)
        /\ \A f \in Range1(og.files) : f.id > mf
        /\ LET g0 == WithIds(e.def, e.o, gid)
               g1 == IF e.paused THEN MapFiles(g0, LAMBDA f : [f EXCEPT !.paused = TRUE]) ELSE g0
               g == PauseExtraPars(X(t, e).attr, g1, IdsOf(g1.files))
           IN /\ q' = AddGroup(q, g, e.top)
              /\ h' = h
        /\ mg' = gid
        /\ mf' = CHOOSE m \in IdsOf(og.files) : \A k \in IdsOf(og.files) : k <= m

DoEdit(e) ==
  /\ IF e.c.cmd = "FileSplit" /\ NewGroups(e.o) # {}
     THEN /\ Cardinality(NewGroups(e.o)) = 1 /\ \A i \in NewGroups(e.o) : i > mg
     ELSE NewGroups(e.o) = {}
  /\ LET nid == IF NewGroups(e.o) = {} THEN 0 ELSE CHOOSE i \in NewGroups(e.o) : TRUE
         x == [X(t, e) EXCEPT !.newId = nid]
     IN \E r \in Edit(q, h, e.c, x) :
          /\ (View \in {"edit", "all"}) => r.ret = e.ret
          /\ h' = r.h
          /\ mg' = Max2(mg, nid) /\ mf' = mf
          /\ IF e.c.cmd = "GroupSortFiles" /\ r.ret
             THEN \* any permutation sorted as documented
                  /\ \A i \in DOMAIN q : q[i].id \in Range1(e.c.ids) =>
                        LET of == Find(e.o.q, q[i].id).files IN SamePerm([k \in DOMAIN q[i].files |-> q[i].files[k].id], [k \in DOMAIN of |-> of[k].id])
                  /\ q' = [i \in DOMAIN q |-> IF q[i].id \in Range1(e.c.ids)
                             THEN LET of == Find(e.o.q, q[i].id).files IN [q[i] EXCEPT !.files = [k \in DOMAIN of |-> Find(q[i].files, of[k].id)]]
                             ELSE q[i]]
                  /\ (View \in {"edit", "all"}) => \A i \in DOMAIN q' : q'[i].id \in Range1(e.c.ids) => IsSortedFiles(x.attr, q'[i].files)
             ELSE q' = r.q

\* after a restart the ids of what does not exist any more may be given again
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A k \in S : k <= m
Restart(e) == q' = q /\ h' = h /\ mg' = MaxOf(IdsOf(q) \cup IdsOf(h)) /\ mf' = MaxOf(FileIdsAlive(q, h))

Init == t \in DOMAIN Data /\ l = 1 /\ q = <<>> /\ h = <<>> /\ mg = 0 /\ mf = 0
Next == /\ l <= Len(Data[t].ev)
        /\ LET e == Ev(t, l) IN
           /\ CASE e.e = "add" -> Add(e)
                [] e.e = "edit" -> DoEdit(e)
                [] e.e = "restart" -> Restart(e)
           /\ Agree(q', h', e.o)
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars

\* progress of each trace, read after the run
Note == IF TLCGet(t) < l THEN TLCSet(t, l) ELSE TRUE
ASSUME \A i \in DOMAIN Data : TLCSet(i, 0)
Report == JsonSerialize("result.json", [i \in DOMAIN Data |-> TLCGet(i) - 1])
ModelInv == UniqueIds(q, h) /\ TotalsSane(q)
\* used to show the state at which a trace was rejected
Stuck == ~(t = Data[1].focus /\ l = Data[1].at)
=============================================================================
