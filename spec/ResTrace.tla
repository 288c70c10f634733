------------------------------ MODULE ResTrace ------------------------------
(* The ledger: what the library takes - pool buffers, sockets, timers - it gives back exactly once.
   Clients hold nothing between operations; the server runs until it is stopped whatever fails. *)
EXTENDS TraceBase, FiniteSets
VARIABLES l, live, fds
vars == <<l, live, fds>>
E == Log[l]
K(k) == l <= Len(Log) /\ E.k = k
Init == l = 1 /\ live = {} /\ fds = {}
Start == K("start") /\ live' = {} /\ fds' = {}
Al == /\ K("al") /\ UNCHANGED fds
      /\ IF E.id = -1 THEN live' = live          \* pool exhausted
         ELSE (\A b \in live : ~(b.pool = E.pool /\ b.id = E.id)) /\ live' = live \cup {[pool |-> E.pool, id |-> E.id, w |-> E.w]}
Fr == /\ K("fr") /\ UNCHANGED fds
      /\ \E b \in live : /\ b.pool = E.pool /\ b.id = E.id
                         /\ (E.w = b.w \/ E.w = -1)     \* what an endpoint took is not given back by another
                         /\ live' = live \ {b}
Open == K("open") /\ E.fd \notin fds /\ fds' = fds \cup {E.fd} /\ UNCHANGED live
Close == K("close") /\ E.fd \in fds /\ fds' = fds \ {E.fd} /\ UNCHANGED live
Idle == K("idle") /\ (\A b \in live : b.w # E.w) /\ UNCHANGED <<live, fds>>
Fault == (K("fault") \/ K("nocreate")) /\ UNCHANGED <<live, fds>>
Ret == K("ret") /\ E.halted = 1 /\ UNCHANGED <<live, fds>>
Fin == K("fin") /\ live = {} /\ fds = {} /\ E.small = 0 /\ E.medium = 0 /\ E.large = 0 /\ E.fds = 0 /\ UNCHANGED <<live, fds>>
End == K("end") /\ live = {} /\ fds = {} /\ UNCHANGED <<live, fds>>
Next == l' = l + 1 /\ (Start \/ Al \/ Fr \/ Open \/ Close \/ Idle \/ Fault \/ Ret \/ Fin \/ End)
Spec == Init /\ [][Next]_vars
Accepted == MatchedAll
==============================================================================
