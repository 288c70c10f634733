------------------------------ MODULE ServerMC ------------------------------
(* Exhaustive exploration of Server with a two-entry table, a short retransmission schedule and
   every order of requests, duplicates, acknowledgements, pings, malformed datagrams, send
   failures, handler failures and time.  The properties are stated on history variables that
   only record what an observer outside the server sees. *)
EXTENDS Server
CONSTANTS EPs, MIDs, NT, MaxTime, MaxSteps
VARIABLES tr, now, mid, steps,
          lasth,      \* per endpoint: message id the application last saw, -1 if the server forgot the endpoint
          pend,       \* per endpoint: the separate response still to be acknowledged: [on, m, sent]
          act,        \* per endpoint: time of the last activity
          out         \* what the last step sent and called
vars == <<tr, now, mid, steps, lasth, pend, act, out>>

McMin == 1
McMax == 1
McRetransmit == 2
McSec(t) == t
C == [seps |-> {<<47, 115>>}, nt |-> NT, large |-> 8, largelen |-> 64]
Pth(c) == <<[n |-> OPT_URI_PATH, v |-> <<c>>]>>
Req(ty, id, c) == [type |-> ty, cls |-> 0, det |-> 1, mid |-> id, tok |-> <<id, c>>, ops |-> Pth(c), pl |-> <<>>]
\* a client uses a message id for one message only: duplicates are identical
ReqOf(id) == CASE id = 0 -> Req(CON, 0, 115) [] id = 1 -> Req(CON, 1, 97) [] id = 2 -> Req(NON, 2, 97) [] id = 3 -> Req(CON, 3, 115)
               [] id = 4 -> [Req(CON, 4, 97) EXCEPT !.ops = @ \o <<[n |-> 13, v |-> <<>>]>>] [] id = 5 -> Req(NON, 5, 115)
Requests == {ReqOf(id) : id \in MIDs}
Strays == {[Msg0 EXCEPT !.mid = 9], [Msg0 EXCEPT !.type = RST, !.mid = 9], [Msg0 EXCEPT !.type = NON, !.cls = 2, !.det = 5, !.mid = 9]}
Ok(m) == [ok |-> TRUE, err |-> "", m |-> m]
Malformed == Bad("bad")
H == {[kind |-> 0, cls |-> 2, det |-> 5, pl |-> <<1>>, opn |-> 0, opv |-> <<>>], [kind |-> 1, ret |-> -5]}
Fails == {[i \in 1..3 |-> FALSE], [i \in 1..3 |-> i = 1], [i \in 1..3 |-> i = 2]}

NoPend == [on |-> FALSE, m |-> Msg0, sent |-> 0]
NoOut == [ep |-> 0, in |-> Msg0, exp |-> <<>>, ok |-> TRUE]
Init == /\ tr = [e \in {} |-> Rec0(0)] /\ now = 0 /\ mid = 100 /\ steps = 0
        /\ lasth = [e \in EPs |-> -1] /\ pend = [e \in EPs |-> NoPend] /\ act = [e \in EPs |-> -1] /\ out = NoOut

Forgotten(trx) == [e \in EPs |-> IF e \in DOMAIN trx THEN lasth[e] ELSE -1]

Step(ep, p, h, f) ==
    /\ steps < MaxSteps /\ steps' = steps + 1
    /\ \E tr1 \in Admit(Expire(tr, now), ep, now, NT) :
       LET d == <<64 + CON * 16, 1, 0, 9>>
           o == Outcome(tr1, ep, now, p, d, h, NoBrx, f, [mid |-> mid, pl |-> <<66>>], C)
           called == \E i \in 1..Len(o.exp) : o.exp[i].k = "h"
           answered == ep \in DOMAIN o.tr /\ p.ok /\ p.m.type \in {CON, NON} /\ IsRequest(p.m)
           lh == Forgotten(o.tr)
       IN /\ tr' = o.tr
          /\ lasth' = IF answered THEN [lh EXCEPT ![ep] = p.m.mid] ELSE lh
          /\ pend' = [e \in EPs |->
                IF e # ep THEN (IF e \in DOMAIN o.tr THEN pend[e] ELSE NoPend)
                ELSE IF ep \notin DOMAIN o.tr THEN NoPend
                ELSE IF p.ok /\ p.m.type \in {ACK, RST} /\ pend[ep].on /\ pend[ep].m.mid = p.m.mid THEN NoPend
                ELSE IF \E i \in 1..Len(o.exp) : o.exp[i].k = "tx" /\ o.exp[i].m.type = CON
                     THEN [on |-> TRUE, m |-> o.exp[Len(o.exp)].m, sent |-> 1]
                ELSE IF answered /\ p.m.mid # lasth[ep] THEN NoPend ELSE pend[ep]]
          /\ act' = [e \in EPs |-> IF e \notin DOMAIN o.tr THEN -1 ELSE IF e = ep THEN now ELSE act[e]]
          /\ out' = [ep |-> ep, in |-> p.m, exp |-> o.exp, ok |-> ~(called /\ p.m.mid = (Forgotten(tr1)[ep]))]
          /\ mid' = IF \E i \in 1..Len(o.exp) : o.exp[i].k = "tx" /\ o.exp[i].fresh THEN mid + 1 ELSE mid
    /\ UNCHANGED now

Receive == \E ep \in EPs, f \in Fails :
    \/ \E m \in Requests, h \in H : Step(ep, Ok(m), h, f)
    \/ \E m \in Strays : Step(ep, Ok(m), [kind |-> 1, ret |-> -5], f)
    \/ Step(ep, Malformed, [kind |-> 1, ret |-> -5], f)
    \/ pend[ep].on /\ \E ty \in {ACK, RST} : Step(ep, Ok([Msg0 EXCEPT !.type = ty, !.mid = pend[ep].m.mid]), [kind |-> 1, ret |-> -5], f)

Timer == \E e \in DOMAIN tr : \E fail \in BOOLEAN :
    /\ CanRetransmit(tr[e], now)
    /\ LET tr1 == Expire(tr, now)
       IN tr' = IF fail THEN Without(tr1, e) ELSE With(tr1, e, Retransmit(tr1[e], now))
    /\ pend' = [x \in EPs |-> IF x \notin DOMAIN tr' THEN NoPend
                              ELSE IF x = e THEN [pend[e] EXCEPT !.sent = @ + 1] ELSE pend[x]]
    /\ act' = [x \in EPs |-> IF x \notin DOMAIN tr' THEN -1 ELSE IF x = e THEN now ELSE act[x]]
    /\ lasth' = Forgotten(tr')
    /\ out' = [ep |-> e, in |-> Msg0, exp |-> <<Tx(tr[e].resp)>>, ok |-> TRUE]
    /\ UNCHANGED <<now, mid, steps>>
Tick == /\ now < MaxTime /\ ~Missed(tr, now + 1) /\ now' = now + 1
        /\ tr' = Expire(tr, now + 1)
        /\ lasth' = Forgotten(tr') /\ pend' = [e \in EPs |-> IF e \in DOMAIN tr' THEN pend[e] ELSE NoPend]
        /\ act' = [e \in EPs |-> IF e \in DOMAIN tr' THEN act[e] ELSE -1]
        /\ out' = NoOut /\ UNCHANGED <<mid, steps>>
Next == Receive \/ Timer \/ Tick
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Bounded == Cardinality(DOMAIN tr) <= NT
\* the application is not called again for the endpoint's last request while it is remembered
AtMostOnce == out.ok
\* everything sent goes to the endpoint that caused it and corresponds to what it sent
Matching ==
    LET m == out.in IN \A i \in 1..Len(out.exp) :
    LET x == out.exp[i] IN x.k # "tx" \/ out.in = Msg0 \/
        \/ x.m.type = ACK /\ x.m.mid = m.mid /\ m.type = CON /\ (IsEmptyCode(x.m) \/ x.m.tok = m.tok)
        \/ x.m.type = RST /\ x.m.mid = m.mid
        \/ x.m.type \in {CON, NON} /\ x.m.tok = m.tok /\ (x.m.type = NON <=> m.type = NON)
\* a separate response is only pending while the server still works on it, and is sent at most 1 + Max times
PendingOK == \A e \in EPs : /\ pend[e].on => e \in DOMAIN tr /\ tr[e].on /\ tr[e].resp = pend[e].m /\ pend[e].sent = tr[e].n + 1
                            /\ pend[e].sent <= MaxRetransmit + 1
                            /\ ~pend[e].on => e \notin DOMAIN tr \/ ~tr[e].on
\* the least recently active endpoint goes first
Lru == [][\A v \in (DOMAIN tr) \ (DOMAIN tr') :
            (\E e \in DOMAIN tr' : e \notin DOMAIN tr) => \A x \in DOMAIN tr : act[v] <= act[x]]_vars
\* one endpoint's traffic never changes what is remembered about another (other than by eviction)
Isolation == [][\A e \in (DOMAIN tr) \cap (DOMAIN tr') : out'.ep # e => tr[e] = tr'[e]]_vars
==============================================================================
