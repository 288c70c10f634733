---------------------------- MODULE RegistrarTrace ----------------------------
EXTENDS Registrar, TraceBase
VARIABLES l, reg
vars == <<l, reg>>
E == Log[l]
K(k) == l <= Len(Log) /\ E.k = k
Init == l = 1 /\ reg = <<>>
Begin == K("start") /\ reg' = <<>>
DoAdd == K("add") /\ E.ret = (IF Index(reg, E.id) = 0 THEN 0 ELSE 1) /\ reg' = Add(reg, E.id, E.addr)
DoDel == K("del") /\ IF Index(reg, E.id) = 0 THEN E.ret < 0 /\ UNCHANGED reg ELSE E.ret = 0 /\ reg' = Del(reg, E.id)
DoFind == K("find") /\ E.addr = (IF Index(reg, E.id) = 0 THEN <<-1>> ELSE reg[Index(reg, E.id)].addr) /\ UNCHANGED reg
DoList == /\ K("list") /\ Len(E.all) = Len(reg) /\ Len(E.back) = Len(reg)
          /\ \A i \in 1..Len(reg) : E.all[i].id = reg[i].id /\ E.all[i].addr = reg[i].addr /\ E.back[i].id = reg[Len(reg) + 1 - i].id
          /\ UNCHANGED reg
Fin == ((K("fin") /\ E.leak = 0) \/ K("end")) /\ UNCHANGED reg
Next == l' = l + 1 /\ (Begin \/ DoAdd \/ DoDel \/ DoFind \/ DoList \/ Fin)
Spec == Init /\ [][Next]_vars
Accepted == MatchedAll
==============================================================================
