------------------------------ MODULE Registrar ------------------------------
(* The registrar: one entry per client identifier, in order of registration, with the address registered last. *)
EXTENDS Integers, Sequences
Index(reg, id) == IF \E i \in 1..Len(reg) : reg[i].id = id THEN CHOOSE i \in 1..Len(reg) : reg[i].id = id ELSE 0
Add(reg, id, addr) == LET i == Index(reg, id) IN IF i = 0 THEN Append(reg, [id |-> id, addr |-> addr]) ELSE [reg EXCEPT ![i].addr = addr]
Del(reg, id) == LET i == Index(reg, id) IN SubSeq(reg, 1, i - 1) \o SubSeq(reg, i + 1, Len(reg))
==============================================================================
