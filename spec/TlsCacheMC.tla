----------------------------- MODULE TlsCacheMC -----------------------------
(* The store of sessions as a ring of Room places against its contract: the data last stored or nothing, never nothing before Room other entries
   have been made, and nothing after a deletion. *)
EXTENDS Tls
CONSTANTS Keys, Tags, Size, MaxOps
VARIABLES ring, at, c, n
vars == <<ring, at, c, n>>
None == [k |-> "", tag |-> 0]
Init == ring = [i \in 0..Size - 1 |-> None] /\ at = 0 /\ c = [x \in {} |-> 0] /\ n = 0
Place(k) == {i \in DOMAIN ring : ring[i].k = k}
Set(k, t) ==
    /\ c' = Put(c, k, t, 1)
    /\ IF Place(k) # {} THEN ring' = [i \in DOMAIN ring |-> IF i \in Place(k) THEN [k |-> k, tag |-> t] ELSE ring[i]] /\ UNCHANGED at
       ELSE ring' = [ring EXCEPT ![at] = [k |-> k, tag |-> t]] /\ at' = (at + 1) % Size
Delete(k) == c' = Del(c, k) /\ ring' = [i \in DOMAIN ring |-> IF ring[i].k = k THEN None ELSE ring[i]] /\ UNCHANGED at
Next == n < MaxOps /\ n' = n + 1 /\ \E k \in Keys : Delete(k) \/ \E t \in Tags : Set(k, t)
Spec == Init /\ [][Next]_vars
Get(k) == IF Place(k) = {} THEN 0 ELSE ring[CHOOSE i \in Place(k) : TRUE].tag
One == \A k \in Keys : \A i, j \in Place(k) : i = j
Contract == \A k \in Keys : Lookup(c, k, IF Get(k) = 0 THEN 0 ELSE 1, Get(k))
==============================================================================
