------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* Queue and history of nzbget with everything which moves collections     *)
(* between them: adding with duplicate check, downloading, deleting and    *)
(* parking, the history actions, the duplicate handling when a download    *)
(* fails or is marked, and the expiry of history items.                    *)
(*                                                                         *)
(* collection                                                              *)
(*  [k, id, name, cat, dk, ds, dm, par, fh, ff, src, files, done,          *)
(*   del, mark, dp, post, parking, dir, moved, time, dst, size, bad]        *)
(*   k      "NZB", or "DUP" when only the facts for the duplicate check    *)
(*          are left (in history)                                          *)
(*   fh,ff  content hashes: all files / without the ignored ones (0: none) *)
(*   src    files as in the nzb file: sequences of [name, arts: [sz, mid]] *)
(*   files  files still to be downloaded [name, paused, arts: [sz,mid,st]] *)
(*          st: "u" not yet downloaded, "f" downloaded, "x" failed         *)
(*   done   files which are through or parked [name, st, arts]             *)
(*          st: "ok", "bad", "part", "none"                                *)
(*   del    "none" "manual" "dupe" "copy" "good"                           *)
(*   mark   "none" "bad" "good" "success"                                  *)
(*   dp     all files were paused when it was deleted or skipped           *)
(*   post   waits for post-processing                                        *)
(*   dst    status of a "DUP"                                              *)
(* State s = [q, h, now, disk, gone, check, paused]                        *)
(*   disk   set of <<directory, file name>>                                *)
(*   gone   message-ids which are not on the server                        *)
(*   check  duplicate check is on                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Low(_)     \* the lower case of a name or key

Rng(x) == {x[i] : i \in DOMAIN x}
RECURSIVE Sum(_, _)
Sum(Op(_), x) == IF x = <<>> THEN 0 ELSE Op(Head(x)) + Sum(Op, Tail(x))
Drop(x, i) == SubSeq(x, 1, i - 1) \o SubSeq(x, i + 1, Len(x))
Without(x, id) == SelectSeq(x, LAMBDA c : c.id # id)
Ids(x) == {x[i].id : i \in DOMAIN x}
At(x, id) == CHOOSE i \in DOMAIN x : x[i].id = id

BadArts(f) == Sum(LAMBDA a : IF a.st = "x" THEN a.sz ELSE 0, f.arts)
BadSize(c) == Sum(BadArts, c.files) + Sum(BadArts, c.done)
Health(c) == IF c.bad = 0 THEN 1000
             ELSE LET v == ((c.size - c.bad) * 1000) \div c.size IN IF v = 1000 THEN 999 ELSE v
\* c1 is c with other results of articles
WithBad(c, c1) == [c1 EXCEPT !.bad = c.bad + BadSize(c1) - BadSize(c)]

\* two collections are duplicates if their keys agree, or if at least one has no key and the names agree
Same(a, b) == IF a.dk # "" /\ b.dk # "" THEN Low(a.dk) = Low(b.dk) ELSE Low(a.name) = Low(b.name)
SameContent(a, b) == (a.fh > 0 /\ a.fh = b.fh) \/ (a.ff > 0 /\ a.ff = b.ff)
\* a download counts as good enough unless it was deleted, marked bad or too much of it is missing
Success(c) == c.mark \in {"success", "good"} \/ (c.del = "none" /\ c.mark # "bad" /\ Health(c) >= 850)

Unpaused(f) == ~f.paused
Fresh(src, paused) == [i \in DOMAIN src |-> [name |-> src[i].name, paused |-> paused,
                        arts |-> [j \in DOMAIN src[i].arts |-> [sz |-> src[i].arts[j].sz, mid |-> src[i].arts[j].mid, st |-> "u"]]]]
FileSt(f) == IF \A j \in DOMAIN f.arts : f.arts[j].st = "f" THEN "ok"
             ELSE IF \A j \in DOMAIN f.arts : f.arts[j].st = "x" THEN "bad"
             ELSE IF \A j \in DOMAIN f.arts : f.arts[j].st = "u" THEN "none" ELSE "part"
DoneFile(f) == [name |-> f.name, st |-> FileSt(f), arts |-> f.arts]

IntDir(c) == "int/" \o c.name \o ".#" \o ToString(c.id)
DstDir(c) == "dst/" \o (IF c.cat = "" THEN "" ELSE c.cat \o "/") \o c.name
RmDir(disk, d) == {x \in disk : x[1] # d}

(***************************************************************************)
(* To the history                                                          *)
(***************************************************************************)
\* what remains is parked; nothing is kept for later if nothing is missing or it was deleted (and not parked)
ToHistory(s, c) ==
  LET c1 == [c EXCEPT !.done = @ \o [i \in DOMAIN c.files |-> [DoneFile(c.files[i]) EXCEPT !.st = "none"]], !.files = <<>>]
      clean == ~c.parking /\ (c.del # "none" \/ c1.bad = 0)
      c2 == [c1 EXCEPT !.done = IF clean THEN <<>> ELSE @, !.parking = FALSE, !.post = FALSE, !.time = s.now]
  IN [s EXCEPT !.q = Without(@, c.id), !.h = <<c2>> \o @]
Parked(c) == Cardinality({i \in DOMAIN c.done : c.done[i].st = "none" \/ (c.done[i].st = "part" /\ i = Len(c.done))})

\* only the facts remain
Hide(c) == [c EXCEPT !.k = "DUP",
              !.dst = CASE c.mark = "good" -> "GOOD" [] c.mark = "bad" -> "BAD" [] c.mark = "success" -> "SUCCESS"
                        [] c.del = "dupe" -> "DUPE" [] c.del \in {"manual", "good", "copy"} -> "DELETED"
                        [] Success(c) -> "SUCCESS" [] OTHER -> "FAILURE",
              !.files = <<>>, !.done = <<>>, !.src = <<>>]

(***************************************************************************)
(* Back to the queue                                                       *)
(***************************************************************************)
ToQueue(s, c) == [s EXCEPT !.h = Without(@, c.id), !.q = <<[c EXCEPT !.del = "none", !.mark = "none", !.dp = FALSE]>> \o @]
Redownload(s, c, restore) ==
  LET dir == IntDir(c)
      c1 == [c EXCEPT !.files = Fresh(c.src, restore /\ c.dp), !.done = <<>>, !.dir = dir, !.bad = 0, !.moved = FALSE]
  IN ToQueue([s EXCEPT !.disk = RmDir(RmDir(@, c.dir), dir)], c1)

\* the files which are not complete come back to the queue; failed articles are tried again if `failed`
OnDisk(s, c, f) == <<c.dir, f.name>> \in s.disk
Again(s, c, f, failed) ==
  LET lost == ~OnDisk(s, c, f)
  IN [name |-> f.name, paused |-> FALSE,
      arts |-> [j \in DOMAIN f.arts |-> IF (f.arts[j].st = "x" /\ (failed \/ lost)) \/ (f.arts[j].st = "f" /\ lost) THEN [f.arts[j] EXCEPT !.st = "u"] ELSE f.arts[j]]]
Comes(f, failed) == CASE f.st = "none" -> TRUE
                      [] f.st = "bad" -> failed
                      [] f.st = "part" -> failed \/ \E j \in DOMAIN f.arts : f.arts[j].st = "u"
                      [] OTHER -> FALSE
Retry(s, c, failed) ==
  LET back == SelectSeq(c.done, LAMBDA f : Comes(f, failed))
      c1 == [c EXCEPT !.files = [i \in DOMAIN back |-> Again(s, c, back[i], failed)], !.done = SelectSeq(@, LAMBDA f : ~Comes(f, failed))]
      void == {<<c.dir, back[i].name>> : i \in {i \in DOMAIN back : back[i].st \in {"bad", "none"}}}    \* nothing in them
  IN ToQueue([s EXCEPT !.disk = @ \ void], WithBad(c, c1))

(***************************************************************************)
(* Duplicates                                                              *)
(***************************************************************************)
\* the best backup comes to the queue if it is better than what is there or was downloaded already
ReturnBest(s, who, self) ==
  LET hist == {i \in DOMAIN s.h : s.h[i].dm # "FORCE" /\ Same(s.h[i], who)}
      succ == {i \in hist : IF s.h[i].k = "DUP" THEN s.h[i].dst \in {"SUCCESS", "GOOD"} ELSE Success(s.h[i])}
      good == {i \in hist : IF s.h[i].k = "DUP" THEN s.h[i].dst = "GOOD" ELSE s.h[i].mark = "good"}
      inq == {i \in DOMAIN s.q : s.q[i].id # self /\ s.q[i].dm # "FORCE" /\ Same(s.q[i], who)}
      cand == {i \in hist : /\ s.h[i].k = "NZB" /\ s.h[i].del = "dupe" /\ s.h[i].mark # "bad" /\ Health(s.h[i]) >= 850
                            /\ \A j \in succ : s.h[i].ds > s.h[j].ds
                            /\ \A j \in inq : s.h[i].ds > s.q[j].ds}
      best == {i \in cand : \A j \in cand : s.h[i].ds > s.h[j].ds \/ (s.h[i].ds = s.h[j].ds /\ i <= j)}
  IN IF good # {} \/ cand = {} THEN s
     ELSE Redownload(s, s.h[CHOOSE i \in best : TRUE], TRUE)

\* a collection is through: to the history; if it failed a backup is tried
Completed(s, c) ==
  LET s1 == ToHistory(s, c) c1 == s1.h[1]
  IN IF s.check /\ c.dm = "SCORE" /\ c.del = "none" /\ ~Success(c1) THEN ReturnBest(s1, c1, c.id) ELSE s1

HasData(c) == \E f \in Rng(c.files) \cup Rng(c.done) : \E j \in DOMAIN f.arts : f.arts[j].st = "f"
GroupDelete(s, c, cmd) ==
  LET allp == \A i \in DOMAIN c.files : c.files[i].paused
      clean == {x \in s.disk : ~(x[1] = c.dir /\ x[2] \in {c.done[i].name : i \in DOMAIN c.done})}
      c1 == [c EXCEPT !.dp = allp, !.del = IF cmd = "GroupDupeDelete" \/ c.del = "dupe" THEN "dupe" ELSE "manual"]
      park == cmd = "GroupParkDelete" /\ HasData(c)
      c2 == IF park THEN [c1 EXCEPT !.parking = TRUE, !.done = @ \o [i \in DOMAIN c.files |-> DoneFile(c.files[i])], !.files = <<>>]
            ELSE [c1 EXCEPT !.files = <<>>]
  IN CASE cmd = "GroupFinalDelete" -> [s EXCEPT !.q = Without(@, c.id), !.disk = clean]
       [] cmd = "GroupParkDelete" -> ToHistory(s, c2)
       [] OTHER -> ToHistory([s EXCEPT !.disk = clean], c2)

\* a new collection takes key and score from the first one with the same name which has any, if it has none itself
Inherit(s, c) ==
  LET from(x) == {i \in DOMAIN x : x[i].name = c.name /\ (x[i].dk # "" \/ x[i].ds # 0)}
      first(x) == x[CHOOSE i \in from(x) : \A j \in from(x) : i <= j]
      src == IF from(s.q) # {} THEN first(s.q) ELSE first(s.h)
  IN IF c.dk = "" /\ c.ds = 0 /\ (from(s.q) # {} \/ from(s.h) # {}) THEN [c EXCEPT !.dk = src.dk, !.ds = src.ds] ELSE c

\* collections in the queue which are worse than the new one become backups, until one is found which is not worse
RECURSIVE Displace(_, _, _)
Displace(s, c, i) ==
  IF i > Len(s.q) THEN [s |-> s, del |-> "none"]
  ELSE LET o == s.q[i]
       IN IF o.dm = "FORCE" \/ ~Same(o, c) THEN Displace(s, c, i + 1)
          ELSE IF c.ds <= o.ds THEN [s |-> s, del |-> "dupe"]
          ELSE Displace(GroupDelete(s, [o EXCEPT !.del = "dupe"], "GroupDupeDelete"), c, i)

Found(s, c0) ==   \* [s, c, del]
  LET c == Inherit(s, c0)
      Copy(o) == SameContent(o, c)
      Good(o) == o.dm # "FORCE" /\ Same(o, c) /\ (IF o.k = "DUP" THEN o.dst = "GOOD" ELSE o.mark = "good")
      Hidden(o) == o.k = "DUP" /\ o.dm # "FORCE" /\ Same(o, c) /\ c.dm = "SCORE" /\ o.dst = "SUCCESS" /\ c.ds <= o.ds
      hits == {i \in DOMAIN s.h : Copy(s.h[i]) \/ Good(s.h[i]) \/ Hidden(s.h[i])}
      hit == s.h[CHOOSE i \in hits : \A j \in hits : i <= j]
      copy == hits # {} /\ Copy(hit)
      good == hits # {} /\ ~copy /\ Good(hit)
      better == \E i \in DOMAIN s.h : /\ s.h[i].k = "NZB" /\ s.h[i].dm # "FORCE" /\ Same(s.h[i], c) /\ c.ds <= s.h[i].ds /\ Success(s.h[i])
  IN IF \E i \in DOMAIN s.q : SameContent(s.q[i], c0) THEN [s |-> s, c |-> c0, del |-> "copy"]
     ELSE IF ~copy /\ ~good /\ c.dm = "SCORE" /\ better THEN [s |-> s, c |-> c, del |-> "dupe"]
     ELSE IF copy THEN [s |-> s, c |-> c, del |-> "copy"]
     ELSE IF hits # {} THEN [s |-> s, c |-> c, del |-> "good"]
     ELSE IF c.dm = "SCORE" THEN LET r == Displace(s, c, 1) IN [s |-> r.s, c |-> c, del |-> r.del]
     ELSE [s |-> s, c |-> c, del |-> "none"]

AddNzb(s, c0, top) ==
  LET r == IF s.check /\ c0.dm # "FORCE" THEN Found(s, c0) ELSE [s |-> s, c |-> c0, del |-> "none"]
      c == [r.c EXCEPT !.dir = IntDir(c0)]
  IN IF r.del = "none" THEN [r.s EXCEPT !.q = IF top THEN <<c>> \o @ ELSE Append(@, c)]
     ELSE ToHistory(r.s, [c EXCEPT !.del = r.del, !.dp = \A i \in DOMAIN c.files : c.files[i].paused])

(***************************************************************************)
(* Downloading: what can be downloaded is downloaded                       *)
(***************************************************************************)
Runnable(c) == \E i \in DOMAIN c.files : ~c.files[i].paused
Fetch(s, f) == [f EXCEPT !.arts = [j \in DOMAIN f.arts |-> IF f.arts[j].st # "u" THEN f.arts[j]
                                     ELSE [f.arts[j] EXCEPT !.st = IF f.arts[j].mid \in s.gone THEN "x" ELSE "f"]]]
RECURSIVE Map(_, _)
Map(Op(_), x) == IF x = <<>> THEN <<>> ELSE <<Op(Head(x))>> \o Map(Op, Tail(x))
\* what was downloaded completely is moved to its final place
PostProcess(s, c) ==
  IF c.bad = 0 /\ c.del = "none" /\ ~c.moved
  THEN LET d == DstDir(c)
           mine == {x \in s.disk : x[1] = c.dir}
       IN Completed([s EXCEPT !.disk = (@ \ mine) \cup {<<d, x[2]>> : x \in mine}], [c EXCEPT !.dir = d, !.moved = TRUE])
  ELSE Completed(s, c)
Download(s, i) ==
  LET c == s.q[i]
      got == Map(LAMBDA f : Fetch(s, f), SelectSeq(c.files, Unpaused))
      new == {<<c.dir, got[k].name>> : k \in DOMAIN got}
      c1 == WithBad(c, [c EXCEPT !.files = SelectSeq(@, LAMBDA f : f.paused), !.done = @ \o Map(DoneFile, got)])
      s1 == [s EXCEPT !.disk = @ \cup new]
  IN IF c1.files = <<>> THEN PostProcess(s1, c1) ELSE [s1 EXCEPT !.q[i] = c1]
\* all results of downloading everything which is not paused
RECURSIVE Settle(_)
Settle(s) ==
  LET R == {i \in DOMAIN s.q : Runnable(s.q[i]) /\ ~s.paused}
      P == {i \in DOMAIN s.q : s.q[i].post}
  IN IF R \cup P = {} THEN {s} ELSE UNION {Settle(Download(s, i)) : i \in R} \cup UNION {Settle(PostProcess(s, s.q[i])) : i \in P}

(***************************************************************************)
(* History actions: result [s, ok]                                         *)
(***************************************************************************)
SetH(s, i, c) == [s EXCEPT !.h[i] = c]
HideAll(s, i) == [s EXCEPT !.h = [j \in DOMAIN s.h |-> LET c == s.h[j] IN
                    IF j # i /\ c.k = "NZB" /\ c.dm # "FORCE" /\ c.del = "dupe" /\ Same(c, s.h[i]) THEN Hide(c) ELSE c]]
RECURSIVE SetPar(_, _, _)
SetPar(par, n, v) ==
  IF par = <<>> THEN (IF v = "" THEN <<>> ELSE <<<<n, v>>>>)
  ELSE IF Low(par[1][1]) = Low(n) THEN (IF v = "" THEN Tail(par) ELSE <<<<par[1][1], v>>>> \o Tail(par))
  ELSE <<par[1]>> \o SetPar(Tail(par), n, v)
HistOne(s, id, e) ==
  LET i == At(s.h, id)
      c == s.h[i]
      nzb == c.k = "NZB"
      dirExists == \E x \in s.disk : x[1] = c.dir
      Del == IF nzb /\ c.del # "none" THEN [s EXCEPT !.disk = RmDir(@, c.dir)] ELSE s
      Y(t) == [s |-> t, ok |-> TRUE]
  IN CASE e.cmd = "HistoryFinalDelete" -> Y([Del EXCEPT !.h = Without(@, id)])
       [] e.cmd = "HistoryDelete" -> Y(IF ~s.check THEN [Del EXCEPT !.h = Without(@, id)] ELSE IF nzb THEN SetH(Del, i, Hide(c)) ELSE s)
       [] e.cmd = "HistoryRedownload" -> Y(IF nzb THEN Redownload(s, c, FALSE) ELSE s)
       [] e.cmd = "HistoryReturn" -> Y(IF nzb /\ Parked(c) > 0 /\ dirExists THEN Retry(s, c, FALSE) ELSE s)
       [] e.cmd = "HistoryRetryFailed" -> Y(IF nzb /\ dirExists THEN Retry(s, c, TRUE) ELSE s)
       [] e.cmd = "HistoryProcess" ->
            Y(IF nzb /\ dirExists THEN LET s1 == Retry(s, c, FALSE) c1 == s1.q[1] IN IF c1.files = <<>> THEN [s1 EXCEPT !.q[1].post = TRUE] ELSE s1 ELSE s)
       [] e.cmd = "HistorySetParameter" -> IF nzb THEN Y(SetH(s, i, [c EXCEPT !.par = SetPar(@, e.arg, e.arg2)])) ELSE [s |-> s, ok |-> FALSE]
       [] e.cmd = "HistorySetCategory" -> IF nzb THEN Y(SetH(s, i, [c EXCEPT !.cat = e.arg])) ELSE [s |-> s, ok |-> FALSE]
       [] e.cmd = "HistorySetName" -> IF e.arg # "" THEN Y(SetH(s, i, [c EXCEPT !.name = e.arg])) ELSE [s |-> s, ok |-> FALSE]
       [] e.cmd = "HistorySetDupeKey" -> Y(SetH(s, i, [c EXCEPT !.dk = e.arg]))
       [] e.cmd = "HistorySetDupeScore" -> Y(SetH(s, i, [c EXCEPT !.ds = e.n]))
       [] e.cmd = "HistorySetDupeMode" -> Y(SetH(s, i, [c EXCEPT !.dm = e.arg]))
       [] e.cmd = "HistorySetDupeBackup" ->
            Y(IF nzb /\ c.del \in {"dupe", "manual"} THEN SetH(s, i, [c EXCEPT !.del = IF e.arg = "yes" THEN "dupe" ELSE "manual"]) ELSE s)
       [] e.cmd \in {"HistoryMarkBad", "HistoryMarkGood", "HistoryMarkSuccess"} ->
            LET m == CASE e.cmd = "HistoryMarkBad" -> "bad" [] e.cmd = "HistoryMarkGood" -> "good" [] OTHER -> "success"
                c1 == IF nzb THEN [c EXCEPT !.mark = m]
                      ELSE [c EXCEPT !.dst = CASE m = "bad" -> "BAD" [] m = "good" -> "GOOD" [] OTHER -> "SUCCESS"]
                s1 == SetH(s, i, c1)
            IN Y(IF ~s.check \/ c.dm = "FORCE" \/ m = "success" THEN s1
                 ELSE IF m = "good" THEN HideAll(s1, i) ELSE ReturnBest(s1, c1, 0))
RECURSIVE HistEach(_, _, _, _)
HistEach(s, ids, ok, e) ==
  IF ids = <<>> THEN [s |-> s, ok |-> ok]
  ELSE IF Head(ids) \notin Ids(s.h) THEN HistEach(s, Tail(ids), ok, e)
  ELSE LET r == HistOne(s, Head(ids), e) IN HistEach(r.s, Tail(ids), r.ok, e)
HistEdit(s, e) ==
  LET bads == IF e.cmd # "HistoryMarkBad" THEN s
              ELSE [s EXCEPT !.h = [j \in DOMAIN s.h |-> IF s.h[j].id \in Rng(e.ids) /\ s.h[j].k = "NZB" THEN [s.h[j] EXCEPT !.mark = "bad"] ELSE s.h[j]]]
  IN HistEach(bads, e.ids, FALSE, e)

RECURSIVE QueueEdit(_, _, _)
QueueEdit(s, ids, e) ==
  IF ids = <<>> THEN s
  ELSE IF Head(ids) \notin Ids(s.q) THEN QueueEdit(s, Tail(ids), e)
  ELSE LET i == At(s.q, Head(ids)) c == s.q[i]
           s1 == CASE e.cmd \in {"GroupPause", "GroupResume"} -> [s EXCEPT !.q[i].files = [k \in DOMAIN c.files |-> [c.files[k] EXCEPT !.paused = (e.cmd = "GroupPause")]]]
                   [] OTHER -> GroupDelete(s, c, e.cmd)
       IN QueueEdit(s1, Tail(ids), e)

\* history items older than `keep` days expire
Expire(s, keep) ==
  LET old(c) == c.k = "NZB" /\ s.now - c.time >= keep
  IN IF s.check THEN [s EXCEPT !.h = [j \in DOMAIN s.h |-> IF old(s.h[j]) THEN Hide(s.h[j]) ELSE s.h[j]]]
     ELSE [s EXCEPT !.h = SelectSeq(@, LAMBDA c : ~old(c))]
=============================================================================
