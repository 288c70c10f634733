------------------------------- MODULE UriMC -------------------------------
(* Every string over a boundary alphabet up to length N, behind each of a few heads: what is
   read is written as a text that reads the same, the text contains no character outside
   RFC 3986, and separators only occur where they delimit.  Each string is also emitted. *)
EXTENDS Uri, TLC, Json
CONSTANTS N
\* a : / ? # @ [ ] % 4 space
Alpha == {97, 58, 47, 63, 35, 64, 91, 93, 37, 52, 32}
Heads == {<<>>, <<47, 47>>, <<97, 58, 47, 47>>}
VARIABLES h, s
Init == h \in Heads /\ s = <<>>
Next == h' = h /\ Len(s) < N /\ \E a \in Alpha : s' = Append(s, a)
Spec == Init /\ [][Next]_<<h, s>>
P == UriParse(h \o s)
Rfc == Plain \cup {Pct, Colon, Slash, AtSign, Quest, Hash, 91, 93}
RoundTrip == P.ok /\ Readable(P.u) => UriParse(UriText(P.u)) = P
Clean == P.ok => LET t == UriText(P.u) IN \A i \in 1..Len(t) : t[i] \in Rfc
Emit == PrintT(<<"GEN", ToJson(h \o s)>>)
==============================================================================
