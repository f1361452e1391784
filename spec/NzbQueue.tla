------------------------------ MODULE NzbQueue ------------------------------
(***************************************************************************)
(* The download queue of nzbget: collections ("groups") with their files,  *)
(* and the effect of every edit command on them.  Everything is written    *)
(* as operators over values, so that the same definitions serve the        *)
(* exhaustive model (QueueModel), the generator of command sequences       *)
(* (QueueGen) and the validation of recorded traces (QueueTrace).          *)
(*                                                                         *)
(* file  [id, name, sz, rem, time, paused, par, tot, miss, missz,          *)
(*        ok, bad, badsz]                                                  *)
(*   sz    size in bytes, rem bytes still to be downloaded                 *)
(*   tot   number of articles, miss the ones missing in the nzb file       *)
(*   ok/bad  articles downloaded / failed so far, badsz size of the latter *)
(* group [id, name, cat, prio, dk, ds, dm, par, files, minT, maxT,         *)
(*        post, done]                                                      *)
(*   done  what the files which are no longer in the list contribute       *)
(* history entry [id, name, status, cat]                                   *)
(*                                                                         *)
(* Attr: static attributes of file names (the order of names, extension    *)
(* classes), given with the trace because TLC has no string functions.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Range1(s) == {s[i] : i \in DOMAIN s}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE SumF(_, _)
SumF(Op(_), s) == IF s = <<>> THEN 0 ELSE Op(Head(s)) + SumF(Op, Tail(s))

IdsOf(s) == {s[i].id : i \in DOMAIN s}
PosOf(s, id) == CHOOSE i \in DOMAIN s : s[i].id = id
Find(s, id) == s[PosOf(s, id)]
AllFileIds(q) == UNION {IdsOf(q[i].files) : i \in DOMAIN q}
GroupOfFile(q, fid) == CHOOSE i \in DOMAIN q : fid \in IdsOf(q[i].files)

\* cf: ids of the files which are downloaded (they still exist as completed files), pok: par files on disk, man: 1 when the remaining files are downloaded for a manual par-check
NoDone == [cf |-> {}, pok |-> 0, man |-> 0, cnt |-> 0, sz |-> 0, psz |-> 0, tot |-> 0, ok |-> 0, bad |-> 0, badsz |-> 0, pbadsz |-> 0]

(***************************************************************************)
(* Totals of a group: what must follow from its files                      *)
(***************************************************************************)
FileCount(g) == Len(g.files) + g.done.cnt
Size(g) == SumF(LAMBDA f : f.sz, g.files) + g.done.sz
ParSize(g) == SumF(LAMBDA f : IF f.par THEN f.sz ELSE 0, g.files) + g.done.psz
RemSize(g) == SumF(LAMBDA f : f.rem, g.files)
PausedSize(g) == SumF(LAMBDA f : IF f.paused THEN f.rem ELSE 0, g.files)
RemPars(g) == SumF(LAMBDA f : IF f.par THEN 1 ELSE 0, g.files)
TotArts(g) == SumF(LAMBDA f : f.tot, g.files) + g.done.tot
OkArts(g) == SumF(LAMBDA f : f.ok, g.files) + g.done.ok
BadArts(g) == SumF(LAMBDA f : f.bad + f.miss, g.files) + g.done.bad
BadSize(g) == SumF(LAMBDA f : f.badsz + f.missz, g.files) + g.done.badsz
ParBadSize(g) == SumF(LAMBDA f : IF f.par THEN f.badsz + f.missz ELSE 0, g.files) + g.done.pbadsz

\* promille of the non-par data which is still available
HealthOf(size, psize, badsz, pbadsz) ==
  IF badsz = 0 \/ size = psize THEN 1000
  ELSE LET h == ((size - psize - (badsz - pbadsz)) * 1000) \div (size - psize)
       IN IF h = 1000 /\ badsz - pbadsz > 0 THEN 999 ELSE h
CriticalOf(size, psize, pbadsz) ==
  IF size = 0 THEN 1000
  ELSE IF size = psize THEN 0
  ELSE LET good == psize - pbadsz
           c == IF good * 2 > size THEN 0 ELSE ((size - good * 2) * 1000) \div (size - good)
       IN IF c = 1000 /\ psize > 0 THEN 999 ELSE c
Health(g) == HealthOf(Size(g), ParSize(g), BadSize(g), ParBadSize(g))
Critical(g) == CriticalOf(Size(g), ParSize(g), ParBadSize(g))

(***************************************************************************)
(* Moving: the selected elements keep their relative order                 *)
(***************************************************************************)
\* positions (in the new sequence) of the selected elements when moved up by k>0
RECURSIVE UpPos(_, _, _)
UpPos(sel, k, last) ==   \* sel: increasing sequence of positions
  IF sel = <<>> THEN <<>>
  ELSE LET p == Max2(Head(sel) - k, last + 1) IN <<p>> \o UpPos(Tail(sel), k, p)

SelPositions(s, ids) == SetToSortSeq({i \in DOMAIN s : s[i].id \in ids}, LAMBDA a, b : a < b)

\* sequence with the selected elements at the given positions, the others fill the rest in order
RECURSIVE Place(_, _, _, _, _)
Place(n, i, pos, chosen, rest) ==
  IF i > n THEN <<>>
  ELSE IF pos # <<>> /\ Head(pos) = i
       THEN <<Head(chosen)>> \o Place(n, i + 1, Tail(pos), Tail(chosen), rest)
       ELSE <<Head(rest)>> \o Place(n, i + 1, pos, chosen, Tail(rest))

MoveUp(s, ids, k) ==
  LET sel == SelPositions(s, ids)
      chosen == [j \in DOMAIN sel |-> s[sel[j]]]
      rest == SelectSeq(s, LAMBDA e : e.id \notin ids)
  IN Place(Len(s), 1, UpPos(sel, k, 0), chosen, rest)

MoveBy(s, ids, off) ==
  IF off = 0 THEN s
  ELSE IF off < 0 THEN MoveUp(s, ids, -off)
  ELSE Reverse(MoveUp(Reverse(s), ids, off))
MoveTop(s, ids) == SelectSeq(s, LAMBDA e : e.id \in ids) \o SelectSeq(s, LAMBDA e : e.id \notin ids)
MoveBottom(s, ids) == SelectSeq(s, LAMBDA e : e.id \notin ids) \o SelectSeq(s, LAMBDA e : e.id \in ids)

\* the block of selected elements goes before/after the target; if the target is itself selected,
\* it goes to where the target is: before the next element which is not selected
MoveTo(s, ids, target, before) ==
  LET chosen == SelectSeq(s, LAMBDA e : e.id \in ids)
      rest == SelectSeq(s, LAMBDA e : e.id \notin ids)
      tp == PosOf(s, target)
      nexts == {i \in DOMAIN s : i > tp /\ s[i].id \notin ids}
      inside == target \in ids
      tgt == IF inside /\ nexts # {} THEN s[CHOOSE i \in nexts : \A j \in nexts : i <= j].id ELSE target
      bef == before \/ inside
  IN IF inside /\ nexts = {} THEN rest \o chosen
     ELSE LET p == PosOf(rest, tgt)
              cut == IF bef THEN p - 1 ELSE p
          IN SubSeq(rest, 1, cut) \o chosen \o SubSeq(rest, cut + 1, Len(rest))

(***************************************************************************)
(* Sorting                                                                 *)
(***************************************************************************)
RECURSIVE InsertSorted(_, _, _)
InsertSorted(Less(_, _), e, s) ==     \* stable: after the elements which are not greater
  IF s = <<>> THEN <<e>>
  ELSE IF Less(e, Head(s)) THEN <<e>> \o s ELSE <<Head(s)>> \o InsertSorted(Less, e, Tail(s))
RECURSIVE StableSort(_, _)
StableSort(Less(_, _), s) ==
  IF s = <<>> THEN <<>> ELSE InsertSorted(Less, s[Len(s)], StableSort(Less, SubSeq(s, 1, Len(s) - 1)))

GroupKey(g, crit, NameRank(_)) ==
  CASE crit = "name" -> NameRank(g.name)
    [] crit = "size" -> Size(g)
    [] crit = "left" -> RemSize(g) - PausedSize(g)
    [] crit = "age" -> -g.minT
    [] crit = "category" -> NameRank(g.cat)
    [] crit = "priority" -> g.prio

\* the selected groups come together at the place of the first of them, sorted
SortGroups(q, ids, crit, order, NameRank(_)) ==
  LET sel == IF ids = {} THEN IdsOf(q) ELSE ids
      first == CHOOSE i \in DOMAIN q : q[i].id \in sel /\ \A j \in DOMAIN q : q[j].id \in sel => i <= j
      chosen == SelectSeq(q, LAMBDA e : e.id \in sel)
      before == SelectSeq(SubSeq(q, 1, first), LAMBDA e : e.id \notin sel)
      after == SelectSeq(SubSeq(q, first + 1, Len(q)), LAMBDA e : e.id \notin sel)
      K(g) == GroupKey(g, crit, NameRank)
      Asc == StableSort(LAMBDA a, b : K(a) < K(b), chosen)
      Desc == StableSort(LAMBDA a, b : K(a) > K(b), chosen)
      Aligned == before \o chosen \o after
      auto1 == IF crit = "priority" THEN Desc ELSE Asc
      auto2 == IF crit = "priority" THEN Asc ELSE Desc
      \* in auto mode sorting an already sorted list reverses the order
      out == CASE order = "asc" -> Asc
               [] order = "desc" -> Desc
               [] order = "auto" -> IF auto1 = chosen THEN
                                      StableSort(LAMBDA a, b : IF crit = "priority" THEN K(a) < K(b) ELSE K(a) > K(b), chosen)
                                    ELSE auto1
  IN IF q = <<>> THEN q ELSE before \o out \o after

\* order of files inside a group: data files before par files; the first volume of a rar set before the
\* others; pars of one set by size; otherwise by name
FileLess(Attr, a, b) ==
  LET x == Attr[a.name] y == Attr[b.name]
      rarpair == x.stem = y.stem /\ x.len = y.len
  IN IF ~a.par /\ ~b.par THEN
        IF rarpair /\ x.ek = "rar" /\ y.ek = "rNN" THEN TRUE
        ELSE IF rarpair /\ y.ek = "rar" /\ x.ek = "rNN" THEN FALSE
        ELSE x.rank < y.rank
     ELSE IF a.par # b.par THEN ~a.par
     ELSE IF x.pcol = y.pcol THEN a.sz < b.sz
     ELSE x.rank < y.rank

IsSortedFiles(Attr, fs) == \A i, j \in DOMAIN fs : i < j => ~FileLess(Attr, fs[j], fs[i])
SamePerm(s, t) == Len(s) = Len(t) /\ Range1(s) = Range1(t)

(***************************************************************************)
(* Edits of single attributes                                              *)
(***************************************************************************)
SetParam(par, lname, name, value) ==   \* names compare case-insensitively; lname: lower-cased names by name
  LET same == {i \in DOMAIN par : lname[par[i][1]] = lname[name]}
  IN IF same # {} THEN
        LET p == CHOOSE i \in same : \A j \in same : i <= j
        IN IF value = "" THEN RemoveAt(par, p) ELSE [par EXCEPT ![p] = <<@[1], value>>]
     ELSE IF value = "" THEN par ELSE Append(par, <<name, value>>)

MapGroups(q, ids, Op(_)) == [i \in DOMAIN q |-> IF q[i].id \in ids THEN Op(q[i]) ELSE q[i]]
MapFiles(g, Op(_)) == [g EXCEPT !.files = [i \in DOMAIN g.files |-> Op(g.files[i])]]

\* pausing of par files among a set of files of one group
PauseAllPars(g, fids) == MapFiles(g, LAMBDA f : IF f.par /\ f.id \in fids THEN [f EXCEPT !.paused = TRUE] ELSE f)
\* only "vol" files are paused if there is a main par file among them, otherwise all but the smallest (the first of equals);
\* the order in which the files are looked at only matters for equal sizes
PauseExtraPars(Attr, g, fids) ==
  LET P == {i \in DOMAIN g.files : g.files[i].id \in fids /\ g.files[i].par}
      V == {i \in P : Attr[g.files[i].name].vol}
      keep == IF P \ V # {} THEN {}
              ELSE {CHOOSE i \in V : \A j \in V : g.files[i].sz < g.files[j].sz \/ (g.files[i].sz = g.files[j].sz /\ i <= j)}
      hit == IF V = {} THEN {} ELSE V \ keep
  IN [g EXCEPT !.files = [i \in DOMAIN g.files |-> IF i \in hit THEN [g.files[i] EXCEPT !.paused = TRUE] ELSE g.files[i]]]

MinTimeOf(fs) == IF fs = <<>> THEN 0 ELSE CHOOSE t \in {f.time : f \in Range1(fs)} : \A u \in {f.time : f \in Range1(fs)} : t <= u
MaxTimeOf(fs) == IF fs = <<>> THEN 0 ELSE CHOOSE t \in {f.time : f \in Range1(fs)} : \A u \in {f.time : f \in Range1(fs)} : t >= u

AddDone(a, b) == [k \in DOMAIN a |-> IF k = "cf" THEN a.cf \cup b.cf ELSE a[k] + b[k]]

MergeInto(d, s) ==
  [d EXCEPT !.files = @ \o s.files, !.done = [AddDone(@, s.done) EXCEPT !.pok = d.done.pok, !.man = d.done.man],
            !.minT = Min2(@, s.minT), !.maxT = Max2(@, s.maxT)]

RECURSIVE MergeAll(_, _, _)
MergeAll(q, dst, srcs) ==
  IF srcs = <<>> THEN q
  ELSE LET s == Head(srcs)
           q1 == [i \in DOMAIN q |-> IF q[i].id = dst THEN MergeInto(q[i], Find(q, s)) ELSE q[i]]
       IN MergeAll(SelectSeq(q1, LAMBDA g : g.id # s), dst, Tail(srcs))

RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>> ELSE <<Head(s)>> \o Dedup(SelectSeq(Tail(s), LAMBDA x : x # Head(s)))

(***************************************************************************)
(* Deleting.  A deleted group goes to the front of the history, unless it  *)
(* is deleted finally or no history is kept.                               *)
(***************************************************************************)
\* acc: what the history shows of the accounting of the collection
HistEntry(g, status) == [id |-> g.id, name |-> g.name, cat |-> g.cat, status |-> status,
                         acc |-> <<FileCount(g), Size(g), Health(g), TotArts(g), OkArts(g), BadArts(g)>>,
                         cf |-> IF status \in {"DELETED/MANUAL", "DELETED/DUPE"} \/ (status # "FAILURE/PAR" /\ BadSize(g) = ParBadSize(g)) THEN {}
                                ELSE g.done.cf \cup IdsOf(g.files)]
\* a parked collection keeps its files (what is downloaded and what is not), if anything was downloaded
ParkEntry(g) == [HistEntry(g, "DELETED/MANUAL") EXCEPT !.cf = IF OkArts(g) > 0 THEN g.done.cf \cup IdsOf(g.files) ELSE {}]

RECURSIVE DeleteGroups(_, _, _, _)
DeleteGroups(q, h, ids, status) ==
  IF ids = <<>> THEN [q |-> q, h |-> h]
  ELSE LET g == Find(q, Head(ids))
           q1 == SelectSeq(q, LAMBDA x : x.id # Head(ids))
           h1 == CASE status = "" -> h
                   [] status = "PARK" -> <<ParkEntry(g)>> \o h
                   [] OTHER -> <<HistEntry(g, status)>> \o h
       IN DeleteGroups(q1, h1, Tail(ids), status)

RECURSIVE DeleteFiles(_, _, _)
DeleteFiles(q, h, fids) ==
  IF fids = <<>> THEN [q |-> q, h |-> h]
  ELSE LET gi == GroupOfFile(q, Head(fids))
           g == [q[gi] EXCEPT !.files = SelectSeq(@, LAMBDA f : f.id # Head(fids))]
           gone == g.files = <<>>
           q1 == IF gone THEN RemoveAt(q, gi) ELSE [q EXCEPT ![gi] = g]
           h1 == IF gone THEN <<HistEntry(g, "DELETED/MANUAL")>> \o h ELSE h
       IN DeleteFiles(q1, h1, Tail(fids))

SplitOff(q, fids, name, newId) ==    \* all files of one group
  LET gi == GroupOfFile(q, Head(fids))
      src == q[gi]
      moved == [i \in DOMAIN fids |-> Find(src.files, fids[i])]
      left == SelectSeq(src.files, LAMBDA f : f.id \notin Range1(fids))
      new == [id |-> newId, name |-> name, cat |-> src.cat, prio |-> src.prio, dk |-> "", ds |-> 0, dm |-> "SCORE",
              par |-> src.par, files |-> moved, minT |-> MinTimeOf(moved), maxT |-> MaxTimeOf(moved), done |-> NoDone]
      src1 == [src EXCEPT !.files = left,
                          !.minT = IF src.done.cnt = 0 THEN MinTimeOf(left) ELSE @,
                          !.maxT = IF src.done.cnt = 0 THEN MaxTimeOf(left) ELSE @]
      q1 == IF left = <<>> THEN RemoveAt(q, gi) ELSE [q EXCEPT ![gi] = src1]
  IN Append(q1, new)

ReorderTop(g, fids) ==
  LET mine == SelectSeq(fids, LAMBDA x : x \in IdsOf(g.files))
  IN [g EXCEPT !.files = [i \in DOMAIN mine |-> Find(g.files, mine[i])] \o SelectSeq(@, LAMBDA f : f.id \notin Range1(mine))]

(***************************************************************************)
(* The effect of an edit command: set of allowed results [q, h, ret].      *)
(* c: [cmd, ids, off, arg, arg2, ...], x: what surrounds the queue         *)
(*   x.attr, x.lname, x.rank: static facts about strings                   *)
(*   x.newId: id the next created group gets                               *)
(***************************************************************************)
FileCmds == {"FileMoveOffset", "FileMoveTop", "FileMoveBottom", "FilePause", "FileResume", "FileDelete",
             "FilePauseAllPars", "FilePauseExtraPars", "FileReorder", "FileSplit"}

Edit(q, h, c, x) ==
  LET isFile == c.cmd \in FileCmds
      known == IF isFile THEN AllFileIds(q) ELSE IdsOf(q)
      ids == SelectSeq(Dedup(c.ids), LAMBDA i : i \in known)
      S == Range1(ids)
      Same(r) == {[q |-> q, h |-> h, ret |-> r]}
      Just(q1) == {[q |-> q1, h |-> h, ret |-> TRUE]}
      PerGroup(Op(_)) == Just([i \in DOMAIN q |-> IF IdsOf(q[i].files) \cap S # {} THEN Op(q[i]) ELSE q[i]])
      Del(r) == {[q |-> r.q, h |-> r.h, ret |-> TRUE]}
      AttrG(Op(_)) == Just(MapGroups(q, S, Op))
  IN IF ids = <<>> /\ ~(c.cmd = "GroupSort" /\ c.ids = <<>>) THEN Same(FALSE)
     ELSE CASE c.cmd = "GroupMoveOffset" -> Just(MoveBy(q, S, c.off))
            [] c.cmd = "GroupMoveTop" -> Just(MoveTop(q, S))
            [] c.cmd = "GroupMoveBottom" -> Just(MoveBottom(q, S))
            [] c.cmd \in {"GroupMoveBefore", "GroupMoveAfter"} ->
                 IF c.off \in IdsOf(q) THEN Just(MoveTo(q, S, c.off, c.cmd = "GroupMoveBefore")) ELSE Same(FALSE)
            [] c.cmd = "GroupPause" -> AttrG(LAMBDA g : MapFiles(g, LAMBDA f : [f EXCEPT !.paused = TRUE]))
            [] c.cmd = "GroupResume" -> AttrG(LAMBDA g : MapFiles(g, LAMBDA f : [f EXCEPT !.paused = FALSE]))
            [] c.cmd = "GroupPauseAllPars" -> AttrG(LAMBDA g : PauseAllPars(g, IdsOf(g.files)))
            [] c.cmd = "GroupPauseExtraPars" -> AttrG(LAMBDA g : PauseExtraPars(x.attr, g, IdsOf(g.files)))
            [] c.cmd = "GroupSetPriority" -> AttrG(LAMBDA g : [g EXCEPT !.prio = c.off])
            [] c.cmd \in {"GroupSetCategory", "GroupApplyCategory"} -> AttrG(LAMBDA g : [g EXCEPT !.cat = c.arg])
            [] c.cmd = "GroupSetName" -> IF c.arg = "" THEN Same(TRUE) ELSE AttrG(LAMBDA g : [g EXCEPT !.name = c.arg])
            [] c.cmd = "GroupSetDupeKey" -> AttrG(LAMBDA g : [g EXCEPT !.dk = c.arg])
            [] c.cmd = "GroupSetDupeScore" -> AttrG(LAMBDA g : [g EXCEPT !.ds = c.off])
            [] c.cmd = "GroupSetDupeMode" -> AttrG(LAMBDA g : [g EXCEPT !.dm = c.arg])
            [] c.cmd = "GroupSetParameter" -> AttrG(LAMBDA g : [g EXCEPT !.par = SetParam(@, x.lname, c.arg, c.arg2)])
            [] c.cmd = "GroupMerge" -> Just(MergeAll(q, Head(ids), Tail(ids)))
            [] c.cmd = "GroupSort" -> Just(SortGroups(q, S, c.arg, c.arg2, LAMBDA n : x.rank[n]))
            [] c.cmd = "GroupSortFiles" ->
                 \* sorted, order of files which compare equal is open: the allowed result is checked by the caller
                 {[q |-> q, h |-> h, ret |-> TRUE]}
            [] c.cmd = "GroupDelete" -> Del(DeleteGroups(q, h, ids, "DELETED/MANUAL"))
            [] c.cmd = "GroupParkDelete" -> Del(DeleteGroups(q, h, ids, "PARK"))
            [] c.cmd = "GroupDupeDelete" -> Del(DeleteGroups(q, h, ids, "DELETED/DUPE"))
            [] c.cmd = "GroupFinalDelete" -> Del(DeleteGroups(q, h, ids, ""))
            [] c.cmd = "FileMoveOffset" -> PerGroup(LAMBDA g : [g EXCEPT !.files = MoveBy(@, S, c.off)])
            [] c.cmd = "FileMoveTop" -> PerGroup(LAMBDA g : [g EXCEPT !.files = MoveTop(@, S)])
            [] c.cmd = "FileMoveBottom" -> PerGroup(LAMBDA g : [g EXCEPT !.files = MoveBottom(@, S)])
            [] c.cmd = "FilePause" -> PerGroup(LAMBDA g : MapFiles(g, LAMBDA f : IF f.id \in S THEN [f EXCEPT !.paused = TRUE] ELSE f))
            [] c.cmd = "FileResume" -> PerGroup(LAMBDA g : MapFiles(g, LAMBDA f : IF f.id \in S THEN [f EXCEPT !.paused = FALSE] ELSE f))
            [] c.cmd = "FilePauseAllPars" -> PerGroup(LAMBDA g : PauseAllPars(g, S))
            [] c.cmd = "FilePauseExtraPars" -> PerGroup(LAMBDA g : PauseExtraPars(x.attr, g, S))
            [] c.cmd = "FileReorder" -> Just([i \in DOMAIN q |-> IF Head(ids) \in IdsOf(q[i].files) THEN ReorderTop(q[i], ids) ELSE q[i]])
            [] c.cmd = "FileDelete" -> Del(DeleteFiles(q, h, ids))
            [] c.cmd = "FileSplit" ->
                 IF Cardinality({GroupOfFile(q, i) : i \in S}) > 1 \/ c.arg = "" THEN Same(FALSE)
                 ELSE Just(SplitOff(q, ids, c.arg, x.newId))

(***************************************************************************)
(* Adding a collection                                                     *)
(***************************************************************************)
AddGroup(q, g, top) == IF top THEN <<g>> \o q ELSE Append(q, g)

(***************************************************************************)
(* Properties of a state                                                   *)
(***************************************************************************)
UniqueIds(q, h) ==
  /\ \A i, j \in DOMAIN q : i # j => q[i].id # q[j].id
  /\ \A i, j \in DOMAIN h : i # j => h[i].id # h[j].id
  /\ IdsOf(q) \cap IdsOf(h) = {}
  /\ \A i \in DOMAIN q : \A a, b \in DOMAIN q[i].files : a # b => q[i].files[a].id # q[i].files[b].id
  /\ \A i, j \in DOMAIN q : i # j => IdsOf(q[i].files) \cap IdsOf(q[j].files) = {}
\* ids of all files which still exist
FileIdsAlive(q, h) == AllFileIds(q) \cup UNION {q[i].done.cf : i \in DOMAIN q} \cup UNION {h[i].cf : i \in DOMAIN h}
TotalsSane(q) ==
  \A i \in DOMAIN q : LET g == q[i] IN
     /\ PausedSize(g) >= 0 /\ PausedSize(g) <= RemSize(g) /\ RemSize(g) <= Size(g)
     /\ RemPars(g) <= Len(g.files) /\ ParSize(g) <= Size(g)
     /\ g.files # <<>>
=============================================================================
