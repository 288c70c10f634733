------------------------------ MODULE MemPool ------------------------------
(* The three fixed-size buffer pools.  A pool hands out any buffer that is not in use; a
   buffer is an interval of the pool's arena; intervals in use never overlap. *)
EXTENDS Integers, Sequences, FiniteSets

Pools == 1..3
\* pool record: [num, len, live] where live maps handles to offsets
NoPool == [num |-> 0, len |-> 0, live |-> <<>>]
Offsets(p) == {p.live[h] : h \in DOMAIN p.live}
Free(p) == p.num - Cardinality(DOMAIN p.live)
CanAlloc(p, n) == n <= p.len /\ Free(p) > 0
Disjoint(a, b, len) == a + len <= b \/ b + len <= a
GoodOffset(p, off) ==
    /\ off >= 0 /\ off + p.len <= p.num * p.len
    /\ \A o \in Offsets(p) : Disjoint(o, off, p.len)
AllocP(p, h, off) == [p EXCEPT !.live = [x \in DOMAIN p.live \cup {h} |-> IF x = h THEN off ELSE p.live[x]]]
FreeP(p, h) == [p EXCEPT !.live = [x \in DOMAIN p.live \ {h} |-> p.live[x]]]
ValidParams(num, len) == num % 8 = 0 /\ len > 0
PoolInv(p) ==
    /\ Cardinality(Offsets(p)) = Cardinality(DOMAIN p.live)
    /\ \A x, y \in DOMAIN p.live : x # y => Disjoint(p.live[x], p.live[y], p.len)
    /\ Cardinality(DOMAIN p.live) <= p.num
==============================================================================
