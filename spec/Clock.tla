------------------------------- MODULE Clock -------------------------------
(***************************************************************************)
(* Time in nzbget: scheduled tasks, pause states and timed resume.         *)
(* Tasks are sorted by time of day:                                        *)
(*   [h, m, days, cmd, on, arg, id]   h = -1: at start of the program      *)
(*   days: set of week days (1 is Monday), {} for all                      *)
(*   cmd   "download" "post" "scan" (on: not paused), "rate" (arg),        *)
(*         "server" (on, arg: ids), "process"                              *)
(* s = [now, last, off, dl, post, scan, rate, srv, n, resume]              *)
(*   last   time of the last check of the tasks (0: none since the start)  *)
(*   off    local time - UTC                                               *)
(*   dl, post, scan   TRUE if paused                                       *)
(*   srv    ids of the active servers     n   runs of each process         *)
(*   resume time of the timed resume, 0 if there is none                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Tasks, Paused0, Rate0, Srv0

Day == 86400
WeekDay(d) == ((d + 3) % 7) + 1
Rng(x) == {x[i] : i \in DOMAIN x}

Exec(s, k, process) ==
  CASE k.cmd = "download" -> [s EXCEPT !.dl = ~k.on]
    [] k.cmd = "post" -> [s EXCEPT !.post = ~k.on]
    [] k.cmd = "scan" -> [s EXCEPT !.scan = ~k.on]
    [] k.cmd = "rate" -> [s EXCEPT !.rate = k.arg[1]]
    [] k.cmd = "server" -> [s EXCEPT !.srv = IF k.on THEN @ \cup Rng(k.arg) ELSE @ \ Rng(k.arg)]
    [] k.cmd = "process" -> IF process THEN [s EXCEPT !.n[k.id] = @ + 1] ELSE s

\* every due point after `from` up to `to` (local time), in order of time
Due(k, d, from, to) == LET p == d * Day + k.h * 3600 + k.m * 60
                       IN k.h >= 0 /\ from < p /\ p <= to /\ (k.days = {} \/ WeekDay(d) \in k.days)
RECURSIVE OfDay(_, _, _, _, _, _)
OfDay(s, d, i, from, to, process) ==
  IF i > Len(Tasks) THEN s
  ELSE OfDay(IF Due(Tasks[i], d, from, to) THEN Exec(s, Tasks[i], process) ELSE s, d, i + 1, from, to, process)
RECURSIVE Days(_, _, _, _, _)
Days(s, d, from, to, process) == IF d > to \div Day THEN s ELSE Days(OfDay(s, d, 1, from, to, process), d + 1, from, to, process)
Run(s, from, to, process) == Days(s, from \div Day, from, to, process)

RECURSIVE Startup(_, _)
Startup(s, i) == IF i > Len(Tasks) THEN s ELSE Startup(IF Tasks[i].h = -1 THEN Exec(s, Tasks[i], TRUE) ELSE s, i + 1)

\* after a start, or if the clock was changed, the tasks of the last week decide about the state, but no processes are started
Limit == 5400
Check(s) ==
  LET d == s.now - s.last
      s0 == IF s.last = 0 THEN Startup(s, 1) ELSE s
  IN [IF s.last = 0 \/ d > Limit \/ d < 0 THEN Run(s0, s.now + s.off - 7 * Day, s.now + s.off, FALSE) ELSE Run(s0, s.last + s.off, s.now + s.off, TRUE)
      EXCEPT !.last = s.now]
Resume(s) == IF s.resume > 0 /\ s.now >= s.resume THEN [s EXCEPT !.resume = 0, !.dl = FALSE, !.post = FALSE, !.scan = FALSE] ELSE s

\* results of the clock reaching `now`: the tasks are looked at once per minute, and may be looked at more often
At(s, now) ==
  LET s1 == [s EXCEPT !.now = now]
      due == now \div 60 > s.last \div 60 \/ now < s.last - 60
  IN {Resume(Check(s1))} \cup (IF due THEN {} ELSE {s1})
Start(off, now) == Check([now |-> now, last |-> 0, off |-> off, dl |-> Paused0, post |-> FALSE, scan |-> FALSE, rate |-> Rate0, srv |-> Srv0,
                          n |-> [i \in 1..9 |-> 0], resume |-> 0])
Again(s) == [Start(s.off, s.now) EXCEPT !.n = [i \in DOMAIN s.n |-> s.n[i] + @[i]]]

Command(s, e) ==
  CASE e.cmd \in {"pausedownload", "resumedownload"} -> [s EXCEPT !.dl = (e.cmd = "pausedownload"), !.resume = 0]
    [] e.cmd \in {"pausepost", "resumepost"} -> [s EXCEPT !.post = (e.cmd = "pausepost"), !.resume = 0]
    [] e.cmd \in {"pausescan", "resumescan"} -> [s EXCEPT !.scan = (e.cmd = "pausescan"), !.resume = 0]
    [] e.cmd = "rate" -> [s EXCEPT !.rate = e.arg]
    [] e.cmd = "scheduleresume" -> [s EXCEPT !.resume = s.now + e.arg]
    [] e.cmd = "serveron" -> [s EXCEPT !.srv = @ \cup {e.arg}]
    [] e.cmd = "serveroff" -> [s EXCEPT !.srv = @ \ {e.arg}]
=============================================================================
