------------------------------- MODULE UriTrace -------------------------------
(* Recorded calls of the URI library against Uri.  u is the state of the URI object. *)
EXTENDS Uri, TraceBase
VARIABLES l, u
E == Log[l]
K(k) == l <= Len(Log) /\ E.k = k
Got == [f \in DOMAIN Uri0 |-> E[f]]
Init == l = 1 /\ u = Uri0
Start == K("start") /\ u' = Uri0
End == K("end") /\ u' = u
DoParse == /\ K("parse")
           /\ LET p == UriParse(E.s) IN
              /\ E.ret = (IF p.ok THEN 0 ELSE -74)
              /\ u' = IF p.ok THEN p.u ELSE Uri0
           /\ u' = Got
SetVal == IF E.f = "path" /\ (E.s = <<>> \/ E.s[1] # Slash) THEN <<Slash>> \o E.s ELSE E.s
DoSet == /\ K("set")
         /\ LET d == Decode(SetVal) IN
            /\ E.ret = (IF d.ok THEN 0 ELSE -74)
            /\ u' = [u EXCEPT ![E.f] = IF d.ok THEN d.v ELSE None]
         /\ u' = Got
\* a copy has the same components and is independent of the original
DoCopy == K("copy") /\ E.ret = 0 /\ u' = u /\ Got = u /\ E.indep = 1
DoGen == /\ K("gen") /\ u' = u /\ Got = u
         /\ LET us == UriUnits(u)
                n == Len(Join(us, 1))
                t == Fit(us, 1, E.cap - 1)
            IN /\ E.ret = n
               /\ E.cap > 0 => SubSeq(E.buf, 1, Len(t)) = t /\ \A i \in (Len(t) + 1)..E.cap : E.buf[i] = 0
Next == l' = l + 1 /\ (Start \/ End \/ DoParse \/ DoSet \/ DoCopy \/ DoGen)
Spec == Init /\ [][Next]_<<l, u>>
Accepted == MatchedAll
==============================================================================
