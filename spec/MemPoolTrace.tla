---------------------------- MODULE MemPoolTrace ----------------------------
EXTENDS MemPool, TraceBase
VARIABLES l, pools
vars == <<l, pools>>
E == Log[l]
K(k) == l <= Len(Log) /\ E.k = k
B(x) == IF x THEN 1 ELSE 0
P == E.p + 1
Init == l = 1 /\ pools = [i \in Pools |-> NoPool]
Start == K("start") /\ pools' = [i \in Pools |-> NoPool]
End == K("end") /\ UNCHANGED pools
Create ==
    /\ K("create")
    /\ LET ok == \A i \in Pools : ValidParams(E.num[i], E.len[i])
       IN /\ E.ok = B(ok)
          /\ pools' = [i \in Pools |-> IF ok THEN [num |-> E.num[i], len |-> E.len[i], live |-> <<>>] ELSE NoPool]
          /\ \A i \in Pools : E.gnum[i] = pools'[i].num /\ E.glen[i] = pools'[i].len
Destroy == K("destroy") /\ pools' = [i \in Pools |-> NoPool]
Alloc ==
    /\ K("alloc")
    /\ E.ok = B(CanAlloc(pools[P], E.n))
    /\ IF E.ok = 1
       THEN GoodOffset(pools[P], E.off) /\ pools' = [pools EXCEPT ![P] = AllocP(pools[P], E.id, E.off)]
       ELSE UNCHANGED pools
\* freeing by handle: the contents were still those written after the allocation
DoFree ==
    /\ K("free") /\ E.intact = 1
    /\ pools' = IF E.id \in DOMAIN pools[P].live THEN [pools EXCEPT ![P] = FreeP(pools[P], E.id)] ELSE pools
\* a pointer that is not a buffer of this pool changes nothing
Bogus == K("bogus") /\ UNCHANGED pools
Check == K("check") /\ E.intact = 1 /\ UNCHANGED pools /\ \A i \in Pools : E.used[i] = Cardinality(DOMAIN pools[i].live)
Next == l' = l + 1 /\ (Start \/ End \/ Create \/ Destroy \/ Alloc \/ DoFree \/ Bogus \/ Check)
Spec == Init /\ [][Next]_vars
Inv == \A i \in Pools : PoolInv(pools[i])
Accepted == MatchedAll
==============================================================================
