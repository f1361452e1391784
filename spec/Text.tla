-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts given to the remote API and what it returns.  A text is a         *)
(* sequence of code points.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences
\* characters which XML 1.0 cannot hold are shown as a dot in XML
XmlChar(x) == x \in {9, 10, 13} \/ x \in 32..55295 \/ x \in 57344..65533 \/ x \in 65536..1114111
View(as, s) == IF as = "xml" THEN [i \in DOMAIN s |-> IF XmlChar(s[i]) THEN s[i] ELSE 46] ELSE s
\* what a request format can carry
Carries(form, s) == s # <<>> /\ (form \in {"json-esc", "json-raw", "json-late"} \/ \A i \in DOMAIN s : XmlChar(s[i]))
=============================================================================
