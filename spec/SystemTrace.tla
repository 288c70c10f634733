----------------------------- MODULE SystemTrace -----------------------------
(* End to end: real clients and the real server connected by a network that loses, duplicates and
   delays datagrams.  What the applications at both ends may observe - the abstraction that
   SystemMC shows to be implemented by Client and Server together.

   Events: cfg; call/ret (client application), sent (datagram of a client), drop (lost datagram, of or
   for client ep), h/brx (server application: request and what it answered / body received and answer). *)
EXTENDS Msg, TraceBase
VARIABLES l, tame, cl, sent, calls
\* tame: 0 the network may replay old datagrams, 1 it does not, 2 it does not but memory or system calls may fail
vars == <<l, tame, cl, sent, calls>>
E == Log[l]
K(k) == l <= Len(Log) /\ E.k = k

Idle == [on |-> FALSE, n |-> 0, bw |-> 0, req |-> Msg0, body |-> <<>>, lost |-> 0, toks |-> {}, clean |-> TRUE]
Init == l = 1 /\ tame = 0 /\ cl = [w \in 1..4 |-> Idle] /\ sent = {} /\ calls = <<>>
Start == K("start") /\ tame' = 0 /\ cl' = [w \in 1..4 |-> Idle] /\ sent' = {} /\ calls' = <<>>
Cfg == K("cfg") /\ tame' = E.tame /\ UNCHANGED <<cl, sent, calls>>

Call == /\ K("call") /\ ~cl[E.w].on
        /\ cl' = [cl EXCEPT ![E.w] = [Idle EXCEPT !.on = TRUE, !.n = cl[E.w].n + 1, !.bw = E.bw, !.req = E.req, !.body = E.body,
                                                  !.clean = cl[E.w].clean]]
        /\ UNCHANGED <<tame, sent, calls>>
Sent == /\ K("sent")
        /\ LET q == Parse(E.d) IN
           /\ q.ok
           /\ IF IsRequest(q.m) THEN sent' = sent \cup {[ep |-> E.ep, m |-> q.m, n |-> cl[E.ep].n]}
                                     /\ cl' = [cl EXCEPT ![E.ep].toks = @ \cup {q.m.tok}]
              ELSE UNCHANGED <<sent, cl>>
        /\ UNCHANGED <<tame, calls>>
\* an allocation or a system call fails: like the loss of more datagrams than retransmission covers
Fault == K("fault") /\ cl' = [w \in 1..4 |-> [cl[w] EXCEPT !.lost = IF cl[w].on THEN @ + 10 ELSE @]] /\ UNCHANGED <<tame, sent, calls>>
Drop == K("drop") /\ cl' = [cl EXCEPT ![E.ep].lost = @ + 1] /\ UNCHANGED <<tame, sent, calls>>

\* the server's application only ever sees requests that a client sent, as that client sent them,
\* and, unless the network replays old datagrams, each of them once
Origin == {s \in sent : s.ep = E.ep /\ s.m = E.req}
Once(k) == tame = 1 => \A i \in 1..Len(calls) : calls[i].k = k => ~(calls[i].ep = E.ep /\ calls[i].req.tok = E.req.tok)
H == /\ K("h") /\ Origin # {} /\ Once("h")
     /\ calls' = Append(calls, [k |-> "h", ep |-> E.ep, req |-> E.req, n |-> (CHOOSE s \in Origin : TRUE).n,
                                kind |-> E.kind,
                                cls |-> IF E.kind = 0 THEN E.cls ELSE 0, det |-> IF E.kind = 0 THEN E.det ELSE 0,
                                pl |-> IF E.kind = 0 THEN E.pl ELSE E.body])
     /\ UNCHANGED <<tame, cl, sent>>
\* a body is delivered whole: exactly what one upload of that client sends, and once
Brx == /\ K("brx") /\ Origin # {}
       /\ LET n == (CHOOSE s \in Origin : TRUE).n IN
          /\ tame = 1 => /\ n = cl[E.ep].n /\ cl[E.ep].on => E.body = cl[E.ep].body
                     /\ \A i \in 1..Len(calls) : calls[i].k = "brx" => ~(calls[i].ep = E.ep /\ calls[i].n = n)
          /\ calls' = Append(calls, [k |-> "brx", ep |-> E.ep, req |-> E.req, n |-> n, kind |-> 2, cls |-> E.cls, det |-> E.det, pl |-> E.body])
       /\ UNCHANGED <<tame, cl, sent>>

Mine(c, w) == c.ep = w /\ c.req.tok \in cl[w].toks
Prefix(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]
Ret == /\ K("ret") /\ cl[E.w].on
       /\ LET c == cl[E.w]
              ok == E.ret >= 0
              good == ok /\ E.resp.cls = 2
              mine == {i \in 1..Len(calls) : Mine(calls[i], E.w)}
              covered == tame # 0 /\ c.lost <= (IF c.req.type = CON THEN 3 ELSE 0)
          IN \* success: the application answered this very request with this response
             /\ ((good \/ (covered /\ c.clean)) /\ c.bw = 0) => \E i \in mine : calls[i].k = "h" /\ calls[i].req.tok = E.resp.tok
                     /\ IF calls[i].kind = 0 THEN calls[i].cls = E.resp.cls /\ calls[i].det = E.resp.det /\ calls[i].pl = E.resp.pl
                        ELSE Prefix(E.resp.pl, calls[i].pl)
             \* a downloaded body is the resource's
             /\ (good /\ c.bw = 1 /\ c.req.det = 1) =>
                     /\ \E i \in mine : calls[i].k = "h" /\ calls[i].kind = 2 /\ SubSeq(E.body, 1, E.ret) = calls[i].pl
             \* a successful upload was delivered, whole
             /\ (good /\ c.bw = 1 /\ c.req.det # 1 /\ tame = 1) =>
                     \E i \in 1..Len(calls) : calls[i].k = "brx" /\ calls[i].ep = E.w /\ calls[i].n = c.n /\ calls[i].pl = c.body
             \* completion: losses that retransmission covers are not seen by the application; after an
             \* operation that was given up, the server may refuse one that interrupts it
             /\ covered => ok /\ (c.clean => E.resp.cls # 0) /\ ((c.clean /\ c.bw = 1) => good)
             /\ cl' = [cl EXCEPT ![E.w].on = FALSE, ![E.w].clean = @ /\ ok /\ (c.bw = 1 => good)]
       /\ UNCHANGED <<tame, sent, calls>>
Fin == K("fin") /\ E.small = 0 /\ E.medium = 0 /\ E.large = 0 /\ E.fds = 0
       /\ (\A w \in 1..4 : ~cl[w].on) /\ UNCHANGED <<tame, cl, sent, calls>>
End == K("end") /\ UNCHANGED <<tame, cl, sent, calls>>
Next == l' = l + 1 /\ (Start \/ Cfg \/ Call \/ Sent \/ Drop \/ Fault \/ H \/ Brx \/ Ret \/ Fin \/ End)
Spec == Init /\ [][Next]_vars
Accepted == MatchedAll
==============================================================================
