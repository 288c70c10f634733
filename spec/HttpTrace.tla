------------------------------ MODULE HttpTrace ------------------------------
(* Recorded calls of the HTTP message library against Http. *)
EXTENDS Http, TraceBase
VARIABLE l
E == Log[l]
K(k) == l <= Len(Log) /\ E.k = k
Init == l = 1
Lines == K("start") \/ K("end") \/ K("fin")

Same(m) == E.s1 = m.start[1] /\ E.s2 = m.start[2] /\ E.s3 = m.start[3] /\ E.hdrs = m.hdrs /\ E.body = m.body
DoParse == /\ K("parse")
         /\ LET q == HttpParse(E.d) IN
            CASE q.r = "ok" -> E.ret = q.n /\ Same(q.m)
              [] q.r = "more" -> E.ret = -11
              [] q.r = "bad" -> E.ret = -74
              [] q.r = "either" -> E.ret \in {-11, -74}
\* a message written and read again
DoGen == /\ K("gen")
       /\ LET m == [start |-> <<E.s1, E.s2, E.s3>>, hdrs |-> E.hdrs, body |-> E.body]
              t == HttpText(m)
          IN E.cap > 0 => E.ret = Len(t) /\ Wrote(E.buf, E.cap, t)
DoChunk == K("chunk") /\ E.ret = Len(ChunkText(E.d)) /\ Wrote(E.buf, E.cap, ChunkText(E.d))
DoLast == K("last") /\ E.ret = 3 /\ Wrote(E.buf, E.cap, LastChunkText)
DoBlank == K("blank") /\ E.ret = 2 /\ Wrote(E.buf, E.cap, Crlf2)
DoTrailer == K("trailer") /\ E.ret = Len(TrailerText(E.n, E.v)) /\ Wrote(E.buf, E.cap, TrailerText(E.n, E.v))
Next == l' = l + 1 /\ (Lines \/ DoParse \/ DoGen \/ DoChunk \/ DoLast \/ DoBlank \/ DoTrailer)
Spec == Init /\ [][Next]_l
Accepted == MatchedAll
==============================================================================
