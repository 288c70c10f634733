----------------------------- MODULE RegistrarMC -----------------------------
(* All histories of N registrations and removals over a few clients; each is emitted for replay. *)
EXTENDS Registrar, TLC, Json
CONSTANTS N, Ids
VARIABLES h, reg
Init == h = <<>> /\ reg = <<>>
Next == Len(h) < N /\ \E i \in Ids : \/ h' = Append(h, i) /\ reg' = Add(reg, i, Len(h))
                                     \/ h' = Append(h, -i) /\ reg' = (IF Index(reg, i) = 0 THEN reg ELSE Del(reg, i))
Spec == Init /\ [][Next]_<<h, reg>>
\* one entry per client, exactly for those whose last operation was a registration, with its address
Exact == /\ \A i, j \in 1..Len(reg) : reg[i].id = reg[j].id => i = j
         /\ \A id \in Ids : LET ops == {k \in 1..Len(h) : h[k] \in {id, -id}}
                                last == CHOOSE k \in ops : \A m \in ops : m <= k
                            IN IF ops = {} \/ h[last] = -id THEN Index(reg, id) = 0 ELSE Index(reg, id) # 0 /\ reg[Index(reg, id)].addr = last - 1
Emit == Len(h) = N => PrintT(<<"GEN", ToJson(h)>>)
==============================================================================
