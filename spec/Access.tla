-------------------------------- MODULE Access --------------------------------
(***************************************************************************)
(* What the credentials of a remote request allow.                         *)
(* Configuration c: [cu, cp, ru, rp, au, ap] user names and passwords of   *)
(* the control, restricted and add-only user ("" if not set), form: login  *)
(* page instead of http authentication, ips: AuthorizedIP is set.          *)
(* Request r: via   none | basic | xauth | url | cookie                    *)
(*            user, pw                                                     *)
(*            tok   level whose token is in the cookie ("bogus": another)  *)
(*            addr  "in" (matches AuthorizedIP) | "out"                    *)
(*            http  GET | POST | OPTIONS  (or BIN: binary protocol)        *)
(*            proto json | xml | jsonp | multi | file                      *)
(*            m     method                                                 *)
(*            v     new value for effects                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Methods == {"version", "status", "rate", "append", "appendurl", "saveconfig", "config", "loadconfig", "writelog", "nosuch", "shutdown"}
Safe == {"version", "status", "config", "loadconfig"}
ForAdd == {"version", "append", "appendurl"}

Match(c, r, lv) ==
  CASE lv = "control" -> (c.cu = "" \/ r.user = c.cu) /\ r.pw = c.cp
    [] lv = "restricted" -> c.ru # "" /\ r.user = c.ru /\ r.pw = c.rp
    [] lv = "add" -> c.au # "" /\ r.user = c.au /\ r.pw = c.ap
\* the level a request is executed with ("none": not at all)
Level(c, r) ==
  IF r.http = "BIN" THEN (IF Match(c, r, "control") THEN "control" ELSE "none")
  ELSE IF c.cp = "" \/ (c.ips /\ r.addr = "in") THEN "control"
  ELSE IF r.via = "none" THEN "none"
  ELSE IF r.via = "cookie" THEN (IF r.tok = "bogus" THEN "none" ELSE r.tok)
  ELSE IF Match(c, r, "control") THEN "control"
  ELSE IF Match(c, r, "restricted") THEN "restricted"
  ELSE IF Match(c, r, "add") THEN "add"
  ELSE "none"

Denied(lv, m) == (lv = "add" /\ m \notin ForAdd) \/ (lv = "restricted" /\ m = "saveconfig")
\* the answer
Answer(c, r) ==
  LET lv == Level(c, r) IN
  IF r.http = "OPTIONS" THEN "options"
  ELSE IF r.http = "BIN" THEN (IF lv = "none" THEN "closed" ELSE "ok")
  ELSE IF r.proto = "file" THEN (IF lv = "none" /\ ~c.form THEN "401" ELSE IF r.http = "GET" THEN "file" ELSE "400")
  ELSE IF lv = "none" THEN "401"
  ELSE IF r.proto = "multi" /\ r.http = "GET" THEN (IF lv = "add" THEN "denied" ELSE "fault")
  ELSE IF Denied(lv, r.m) THEN "denied"
  ELSE IF r.m = "nosuch" THEN "fault"
  \* JSONP exists for calls from other sites: it has no other way than GET
  ELSE IF r.http = "GET" /\ r.proto # "jsonp" /\ r.m \notin Safe THEN "notsafe"
  ELSE IF r.m \in {"config", "loadconfig"} THEN (IF lv = "restricted" THEN "masked" ELSE "full")
  ELSE "ok"

\* the state the requests can change
S0 == [rate |-> 0, queue |-> 0, conf |-> 0, log |-> 0, alive |-> TRUE]
Effect(c, r, s) ==
  IF Answer(c, r) # "ok" THEN s
  ELSE CASE r.m = "rate" -> [s EXCEPT !.rate = r.v]
         [] r.m \in {"append", "appendurl"} -> [s EXCEPT !.queue = @ + 1]
         [] r.m = "saveconfig" -> [s EXCEPT !.conf = r.v]
         [] r.m = "writelog" -> [s EXCEPT !.log = @ + 1]
         [] r.m = "shutdown" -> [s EXCEPT !.alive = FALSE]
         [] OTHER -> s
\* only with credentials of the control user, or of the restricted user, or by adding, something changes
OnlyAllowed(c, r, s) ==
  LET n == Effect(c, r, s) IN
  n # s => /\ Level(c, r) # "none"
           /\ Level(c, r) = "add" => n = [s EXCEPT !.queue = n.queue]
           /\ Level(c, r) = "restricted" => n.conf = s.conf
===============================================================================
