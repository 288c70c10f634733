------------------------------- MODULE DataBuf -------------------------------
(* The proxy's byte buffers: a first-in first-out sequence of bytes with a bounded size that doubles on demand. *)
EXTENDS TraceBase
VARIABLES l, q, size, max
vars == <<l, q, size, max>>
E == Log[l]
K(k) == l <= Len(Log) /\ E.k = k
Min(a, b) == IF a < b THEN a ELSE b
Init == l = 1 /\ q = <<>> /\ size = 0 /\ max = 0
Shown == E.count = Len(q') /\ E.data = q' /\ E.next = Len(q') /\ E.space = size' - Len(q')
New == K("new") /\ q' = <<>> /\ size' = E.size /\ max' = E.max /\ IF E.size > E.max THEN E.ret < 0 ELSE E.ret = 0 /\ Shown
Put == /\ K("put") /\ LET n == Min(Len(E.d), size - Len(q)) IN E.ret = n /\ q' = q \o SubSeq(E.d, 1, n)
       /\ UNCHANGED <<size, max>> /\ Shown
Take == /\ K("take") /\ LET n == Min(E.n, Len(q)) IN E.ret = n /\ q' = SubSeq(q, n + 1, Len(q))
        /\ UNCHANGED <<size, max>> /\ Shown
Grow == /\ K("grow") /\ UNCHANGED <<q, max>>
        /\ IF 2 * size > max THEN E.ret < 0 /\ size' = size ELSE E.ret = 0 /\ size' = 2 * size
        /\ Shown
Line == (K("start") \/ K("end") \/ (K("fin") /\ E.leak = 0)) /\ UNCHANGED <<q, size, max>>
Next == l' = l + 1 /\ (New \/ Put \/ Take \/ Grow \/ Line)
Spec == Init /\ [][Next]_vars
Accepted == MatchedAll
==============================================================================
