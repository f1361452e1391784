------------------------------ MODULE Download ------------------------------
(***************************************************************************)
(* Downloading: which article is requested next, and how the result of an  *)
(* article changes the queue.  Files of NzbQueue have in addition          *)
(*   arts  sequence of [mid, sz, st]: the articles of the file which are   *)
(*         listed in the nzb file; st is "u" (not yet downloaded),         *)
(*         "r" (being downloaded), "f" (downloaded), "x" (failed)          *)
(***************************************************************************)
EXTENDS NzbQueue

ForcePriority == 900
HasOpen(f) == \E k \in DOMAIN f.arts : f.arts[k].st = "u"
FirstOpen(f) == CHOOSE k \in DOMAIN f.arts : f.arts[k].st = "u" /\ \A j \in DOMAIN f.arts : f.arts[j].st = "u" => k <= j
Started(f) == \E k \in DOMAIN f.arts : f.arts[k].st # "u"
Running(f) == \E k \in DOMAIN f.arts : f.arts[k].st = "r"
Loadable(f) == ~f.paused /\ HasOpen(f)

\* groups something can be downloaded from
Eligible(q, pd) == {i \in DOMAIN q : (~pd \/ q[i].prio >= ForcePriority) /\ \E j \in DOMAIN q[i].files : Loadable(q[i].files[j])}
NextGroup(q, pd) == CHOOSE i \in Eligible(q, pd) : \A j \in Eligible(q, pd) : q[i].prio > q[j].prio \/ (q[i].prio = q[j].prio /\ i <= j)
NextFile(g) == CHOOSE j \in DOMAIN g.files : Loadable(g.files[j]) /\ \A k \in DOMAIN g.files : Loadable(g.files[k]) => j <= k
NextMid(q, pd) == LET g == q[NextGroup(q, pd)]
                      f == g.files[NextFile(g)]
                  IN f.arts[FirstOpen(f)].mid
AnyNext(q, pd) == Eligible(q, pd) # {}

\* where an article is: <<group, file, article>>
Places(q, mid) == {<<i, j, k>> \in UNION {{<<a, b, c>> : b \in DOMAIN q[a].files, c \in 1 .. 12} : a \in DOMAIN q} :
                     k \in DOMAIN q[i].files[j].arts /\ q[i].files[j].arts[k].mid = mid}
Known(q, mid) == Places(q, mid) # {}
Place1(q, mid) == CHOOSE p \in Places(q, mid) : TRUE

SetSt(q, mid, st) == LET p == Place1(q, mid) IN [q EXCEPT ![p[1]].files[p[2]].arts[p[3]].st = st]
\* possible to request at all (used when several connections compete)
CanTake(q, mid) == Known(q, mid) /\ LET p == Place1(q, mid) IN q[p[1]].files[p[2]].arts[p[3]].st = "u"

FileDone(f) == \A k \in DOMAIN f.arts : f.arts[k].st \in {"f", "x"}
AddFileToDone(d, f) ==
  [cf |-> d.cf \cup {f.id}, man |-> d.man, pok |-> d.pok + (IF f.par THEN 1 ELSE 0), cnt |-> d.cnt + 1, sz |-> d.sz + f.sz, psz |-> d.psz + (IF f.par THEN f.sz ELSE 0), tot |-> d.tot + f.tot, ok |-> d.ok + f.ok,
   bad |-> d.bad + f.bad + f.miss, badsz |-> d.badsz + f.badsz + f.missz, pbadsz |-> d.pbadsz + (IF f.par THEN f.badsz + f.missz ELSE 0)]

\* everything is downloaded, paused par files do not count
Complete(g) == \A j \in DOMAIN g.files : g.files[j].par /\ g.files[j].paused /\ ~Running(g.files[j])

\* What follows when everything is downloaded, with par-check by hand, unpacking off and no scripts: if data is missing and
\* there are par files, all remaining par files are downloaded too and the user is told to repair; it is not worth trying
\* if more is missing than all par files could give
HopelessPar(g) == (Health(g) < Critical(g) /\ Critical(g) < 1000) \/ Health(g) = 0
NeedsPar(g) == BadSize(g) - ParBadSize(g) > 0
AfterDownload(g) ==
  IF g.done.man > 0 THEN [fin |-> TRUE, status |-> "WARNING/DAMAGED", g |-> g]
  ELSE IF g.done.pok > 0 /\ HopelessPar(g) THEN [fin |-> TRUE, status |-> "FAILURE/PAR", g |-> g]
  ELSE IF g.done.pok > 0 /\ NeedsPar(g) THEN
     LET g1 == MapFiles([g EXCEPT !.done.man = 2], LAMBDA f : [f EXCEPT !.paused = FALSE]) IN [fin |-> g.files = <<>>, status |-> "WARNING/DAMAGED", g |-> g1]
  ELSE [fin |-> TRUE, g |-> g,
        status |-> IF Health(g) < Critical(g) THEN "FAILURE/HEALTH" ELSE IF Health(g) < 1000 THEN "WARNING/HEALTH" ELSE "SUCCESS/HEALTH"]

\* the result of an article: "ok", "bad" or "again" (to be tried again later); returns [q, h]
Result(q, h, mid, res) ==
  IF ~Known(q, mid) THEN [q |-> q, h |-> h]     \* deleted meanwhile
  ELSE LET p == Place1(q, mid)
           i == p[1]
           f == q[i].files[p[2]]
           a == f.arts[p[3]]
           f1 == CASE res = "ok" -> [f EXCEPT !.arts[p[3]].st = "f", !.rem = @ - a.sz, !.ok = @ + 1]
                   [] res = "bad" -> [f EXCEPT !.arts[p[3]].st = "x", !.rem = @ - a.sz, !.bad = @ + 1, !.badsz = @ + a.sz]
                   [] res = "again" -> [f EXCEPT !.arts[p[3]].st = "u"]
           g == q[i]
           g1 == IF FileDone(f1) THEN [g EXCEPT !.files = RemoveAt(g.files, p[2]), !.done = AddFileToDone(@, f1)]
                 ELSE [g EXCEPT !.files[p[2]] = f1]
           fin == AfterDownload(g1)
       IN IF FileDone(f1) /\ Complete(g1)
          THEN IF fin.fin THEN [q |-> RemoveAt(q, i), h |-> <<HistEntry(g1, fin.status)>> \o h]
               ELSE [q |-> [q EXCEPT ![i] = fin.g], h |-> h]
          ELSE [q |-> [q EXCEPT ![i] = g1], h |-> h]

\* edits while articles are being downloaded
DEdit(q, h, c, x) ==
  LET known == AllFileIds(q)
      hit == {i \in Range1(c.ids) : i \in known}
  IN IF c.cmd = "FileSplit" /\ \E i \in hit : Started(Find(q[GroupOfFile(q, i)].files, i))
     THEN {[q |-> q, h |-> h, ret |-> FALSE]}
     ELSE IF c.cmd \in {"GroupDelete", "GroupParkDelete", "GroupDupeDelete"}
     THEN \* a group with a running article leaves the queue when this article is cancelled; with more of them in any order
          LET ids == SelectSeq(Dedup(c.ids), LAMBDA i : i \in IdsOf(q))
              R(i) == \E j \in DOMAIN Find(q, i).files : Running(Find(q, i).files[j])
                 runs == SelectSeq(ids, R)
          IN UNION {Edit(q, h, [c EXCEPT !.ids = SelectSeq(ids, LAMBDA i : ~R(i)) \o o], x) : o \in SetToSeqs(Range1(runs))}
     ELSE Edit(q, h, c, x)
=============================================================================
