------------------------------- MODULE AccessGen -------------------------------
(* Every kind of request for the given configurations: checked, and written to cases.json. *)
EXTENDS Access, Json, TLC, SequencesExt
Confs == JsonDeserialize("data.json")
Users(c) == {c.cu, c.ru, c.au, "", "other"}
Pws(c) == {c.cp, c.rp, c.ap, "", "wrong"}
\* an empty user and password is the same as none
Creds(c) == {k \in [via : {"basic", "xauth", "url"}, user : Users(c), pw : Pws(c), tok : {""}] : k.user # "" \/ k.pw # ""}
            \cup {[via |-> "none", user |-> "", pw |-> "", tok |-> ""]}
            \cup {[via |-> "cookie", user |-> "", pw |-> "", tok |-> k] : k \in {"control", "restricted", "add", "bogus"}}
\* a JSONP call has its method in the url
FormsOf(M) == [http : {"GET", "POST"}, proto : {"json", "xml", "multi"}, m : M] \cup [http : {"GET"}, proto : {"jsonp"}, m : M]
\* only where it is refused (structures within the parameters of a multi call are not supported)
Harmful == FormsOf({"shutdown"}) \cup [http : {"POST"}, proto : {"multi"}, m : {"saveconfig"}]
Forms == (FormsOf(Methods \ {"shutdown"}) \cup [http : {"GET", "POST"}, proto : {"file"}, m : {""}] \cup [http : {"OPTIONS"}, proto : {"json"}, m : {"version", "rate"}]
         \cup [http : {"BIN"}, proto : {"bin"}, m : {"version", "rate"}]) \ Harmful
BinCreds(c) == [via : {"bin"}, user : Users(c), pw : Pws(c), tok : {""}]
Addrs(c) == IF c.ips THEN {"in", "out"} ELSE {"out"}
Rec(i, f, k, a) == [c |-> i, http |-> f.http, proto |-> f.proto, m |-> f.m, via |-> k.via, user |-> k.user, pw |-> k.pw, tok |-> k.tok, addr |-> a, v |-> 1]
Shutdown(i) == {r \in {Rec(i, f, k, a) : f \in Harmful, k \in Creds(Confs[i]), a \in Addrs(Confs[i])} : Answer(Confs[i], r) # "ok"}
VARIABLE r
Init == \E i \in DOMAIN Confs : \E f \in Forms \cup Harmful : \E k \in (IF f.http = "BIN" THEN BinCreds(Confs[i]) ELSE Creds(Confs[i])) :
          \E a \in Addrs(Confs[i]) : r = Rec(i, f, k, a)
Spec == Init /\ [][UNCHANGED r]_r
OnlyAllowedInv == OnlyAllowed(Confs[r.c], r, S0)
ASSUME JsonSerialize("cases.json", [i \in DOMAIN Confs |->
  [c |-> i, forms |-> SetToSeq(Forms), creds |-> SetToSeq(Creds(Confs[i])), bin |-> SetToSeq(BinCreds(Confs[i])), addrs |-> SetToSeq(Addrs(Confs[i])),
   shutdown |-> SetToSeq(Shutdown(i))]])
===============================================================================
