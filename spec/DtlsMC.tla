------------------------------- MODULE DtlsMC -------------------------------
(* The server's table of sessions under every order of handshake flights (with acceptable and unacceptable
   certificates), records, alerts and rubbish from a few endpoints. *)
EXTENDS Dtls, FiniteSets
CONSTANTS Eps, Places, Flights, MaxLen, Auth
VARIABLES tab,      \* endpoint -> age, for the endpoints that have a place
          pd,       \* the pending handshake
          proved,   \* (ghost) endpoints that have completed a handshake with an acceptable certificate since they got their place
          clock, served, owed, n
vars == <<tab, pd, proved, clock, served, owed, n>>
Good == [verified |-> 1, invalid |-> 0, nosigner |-> 0, notca |-> 0, revoked |-> 0, x509 |-> 1, shown |-> 1, parses |-> 1,
         expires |-> 9, active |-> -9, unknown |-> 0, cn |-> "p"]
Bad == [Good EXCEPT !.revoked = 1]
Init == tab = [e \in {} |-> 0] /\ pd = NoPd /\ proved = {} /\ clock = 0 /\ served = {} /\ owed = {} /\ n = 0
Drop(f, e) == [x \in DOMAIN f \ {e} |-> f[x]]
Put(f, e, v) == [x \in DOMAIN f \cup {e} |-> IF x = e THEN v ELSE f[x]]
Oldest(f) == {e \in DOMAIN f : \A x \in DOMAIN f : f[e] <= f[x]}
Dg(ep, kind, k, c) ==
    LET base == IF pd.ep \notin {-1, ep} THEN Drop(tab, pd.ep) ELSE tab
        step(b, p, pr, ow) ==
            LET o == HsStep(p, kind, k, c, Auth, Flights)
            IN /\ pd' = o.pd /\ owed' = ow
               /\ tab' = IF o.st = "gone" THEN Drop(b, ep) ELSE b
               /\ proved' = IF o.st = "open" /\ (Auth = 0 \/ c = Good) THEN pr \cup {ep} ELSE pr
               /\ UNCHANGED served
    IN /\ n < MaxLen /\ n' = n + 1 /\ clock' = clock + 1
       /\ IF pd.ep = ep THEN step(base, pd, proved, {})
          ELSE IF ep \notin DOMAIN base
          THEN IF Cardinality(DOMAIN base) < Places THEN step(Put(base, ep, clock), Pd(ep, clock), proved \ {ep}, {})
               ELSE \E v \in Oldest(base) : step(Put(Drop(base, v), ep, clock), Pd(ep, clock), proved \ {v, ep}, {v})
          ELSE IF kind = "rx" THEN tab' = Put(base, ep, clock) /\ pd' = NoPd /\ served' = served \cup {<<ep, ep \in proved>>} /\ owed' = {} /\ UNCHANGED proved
          ELSE IF kind \in {"alert", "recerr"} THEN tab' = Drop(base, ep) /\ pd' = NoPd /\ owed' = {ep} /\ proved' = proved \ {ep} /\ UNCHANGED served
          ELSE tab' = base /\ pd' = NoPd /\ owed' = {} /\ UNCHANGED <<proved, served>>
GiveUp == pd.ep # -1 /\ tab' = Drop(tab, pd.ep) /\ pd' = NoPd /\ owed' = {} /\ UNCHANGED <<proved, clock, served, n>>
Next == \/ \E ep \in Eps, kind \in {"rx", "alert", "recerr", "junk"} : Dg(ep, kind, 0, Bad)
        \/ \E ep \in Eps, k \in 1..Flights, c \in {Good, Bad} : Dg(ep, "flight", k, c)
        \/ GiveUp
Spec == Init /\ [][Next]_vars
\* nobody is served without having proved who it is
OnlyProved == \A x \in served : x[2]
Bounded == Cardinality(DOMAIN tab) <= Places
OnePending == pd.ep # -1 => pd.ep \in DOMAIN tab /\ pd.ep \notin proved
OpenAreProved == \A e \in DOMAIN tab : e # pd.ep => e \in proved
==============================================================================
