----------------------------- MODULE MemPoolMC -----------------------------
(* Small-scope model of one pool: any allocation order, any free order, any buffer choice. *)
EXTENDS MemPool
CONSTANTS Num, BufLen, Handles
VARIABLE p
Init == p = [num |-> Num, len |-> BufLen, live |-> <<>>]
Alloc == \E h \in Handles \ DOMAIN p.live, n \in 0..(BufLen + 1), off \in 0..(Num * BufLen) :
            CanAlloc(p, n) /\ GoodOffset(p, off) /\ off % BufLen = 0 /\ p' = AllocP(p, h, off)
FreeA == \E h \in DOMAIN p.live : p' = FreeP(p, h)
Next == Alloc \/ FreeA
Spec == Init /\ [][Next]_p
Inv == PoolInv(p)
\* as long as not all are in use, an allocation of at most BufLen bytes is possible
NoFalseExhaustion ==
    Free(p) > 0 => \E off \in 0..(Num * BufLen) : off % BufLen = 0 /\ GoodOffset(p, off)
==============================================================================
