------------------------------- MODULE Persist -------------------------------
(***************************************************************************)
(* What a regular shutdown and start keep.  The state is what the remote   *)
(* API shows: sections (queue, files, history, hidden history, volumes of  *)
(* the news servers, messages of collections, feeds), each a sequence of   *)
(* records of named values.  data.json: traces [ev], events                *)
(*   [e |-> "work", s]   something was done, the state is s now            *)
(*   [e |-> "down", s]   state right before the shutdown                   *)
(*   [e |-> "up", s]     state after the next start                        *)
(* Only values of the running program are not kept: connections in use,    *)
(* speed, pause states of the program, uptime, times of last use.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, TLCExt
Data == JsonDeserialize("data.json")
VARIABLES t, l, s
vars == <<t, l, s>>

Transient == {"ActiveDownloads", "MessageCount", "PostInfoText", "PostStageProgress", "PostStageTimeSec", "PostTotalTimeSec", "Status"}
Kept(r) == [k \in DOMAIN r \ Transient |-> r[k]]
KeptAll(x) == [sec \in DOMAIN x |-> [i \in DOMAIN x[sec] |-> Kept(x[sec][i])]]
\* the waiting collections of the post-processing queue wait again, nothing else is in work
Waiting == {"QUEUED", "PAUSED", "FETCHING", "DOWNLOADING"}
SameWork(a, b) == \A i \in DOMAIN a.groups : (a.groups[i].Status \in Waiting) <=> (b.groups[i].Status \in Waiting)
SameHist(a, b) == \A i \in DOMAIN a.history : a.history[i].Status = b.history[i].Status

Init == t \in DOMAIN Data /\ l = 1 /\ s = [groups |-> <<>>, history |-> <<>>]
Next == /\ l <= Len(Data[t].ev)
        /\ LET e == Data[t].ev[l] IN
             IF e.e = "up" THEN KeptAll(e.s) = KeptAll(s) /\ SameWork(s, e.s) /\ SameHist(s, e.s) /\ s' = e.s
             ELSE s' = e.s
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Note == IF TLCGet(t) < l THEN TLCSet(t, l) ELSE TRUE
ASSUME \A i \in DOMAIN Data : TLCSet(i, 0)
Report == JsonSerialize("result.json", [i \in DOMAIN Data |-> TLCGet(i) - 1])
\* an id in one place only
ModelInv == \A i \in DOMAIN s.groups, j \in DOMAIN s.history : s.groups[i].NZBID # s.history[j].NZBID
Stuck == ~(t = Data[1].focus /\ l = Data[1].at)
=============================================================================
