------------------------------- MODULE TextGen ------------------------------
(* every sequence of at most 3 (thorough 4) hard tokens; written to texts.json *)
EXTENDS Text, FiniteSets, Json, TLC, SequencesExt
Data == JsonDeserialize("data.json")     \* [1].tokens: texts, [1].max
Tok == Data[1].tokens
Seqs == UNION {[1..n -> DOMAIN Tok] : n \in 1..Data[1].max}
VARIABLE x
Init == x \in Seqs
Spec == Init /\ [][UNCHANGED x]_x
\* what is shown in XML is valid in XML, as long, and the text itself where possible
ViewInv == LET s == FlattenSeq([i \in DOMAIN x |-> Tok[x[i]]]) v == View("xml", s) IN
  Len(v) = Len(s) /\ (\A i \in DOMAIN v : XmlChar(v[i])) /\ (Carries("xml", s) => v = s)
ASSUME JsonSerialize("texts.json", SetToSeq(Seqs))
=============================================================================
