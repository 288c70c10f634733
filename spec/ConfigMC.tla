------------------------------- MODULE ConfigMC -------------------------------
(* Every text over a boundary alphabet up to length N behind a few heads: a line end, white space or a comment behind
   a readable text changes nothing, an error is reported inside the text or just behind it, and
   names and sections are words.  Each text is also emitted for replay. *)
EXTENDS Config, TLC, Json
CONSTANTS N
\* a 9 _ = [ ] " \ ; newline space tab #
Alpha == {97, 57, 95, 61, 91, 93, 34, 92, 59, 10, 32, 9, 35}
Heads == {<<>>, <<97, 61>>, <<91, 97, 93, 10, 98, 61, 49>>}
VARIABLES h, s
Init == h \in Heads /\ s = <<>>
Next == h' = h /\ Len(s) < N /\ \E a \in Alpha : s' = Append(s, a)
Spec == Init /\ [][Next]_<<h, s>>
T == h \o s
P == ConfigParse(T)
Neutral == P.ret = OK => \A x \in {<<10>>, <<32>>, <<59, 61>>, <<10, 10>>} : ConfigParse(T \o x) = P
Inside == P.ret # OK => P.at.ln \in 1..(1 + Cardinality({i \in 1..Len(T) : T[i] = 10})) /\ P.at.col \in 1..(4 * Len(T) + 1)
Words == P.ret = OK => \A i \in 1..Len(P.sets) : IsAlpha(P.sets[i].name[1]) /\ (P.sets[i].sec = <<>> \/ IsAlpha(P.sets[i].sec[1]))
Emit == PrintT(<<"GEN", ToJson(h \o s)>>)
==============================================================================
