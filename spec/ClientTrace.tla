----------------------------- MODULE ClientTrace -----------------------------
(* A recorded run of the real client is accepted iff it is a behaviour of Client. *)
EXTENDS Client, TraceBase
VARIABLES l, x, op, res, used
vars == <<l, x, op, res, used>>
E == Log[l]
K(k) == l <= Len(Log) /\ E.k = k
NoRes == [has |-> FALSE, ret |-> 0, m |-> Msg0, t |-> 0]
Res(ret, m, t) == [has |-> TRUE, ret |-> ret, m |-> m, t |-> t]
Init == l = 1 /\ x = X0 /\ op = Op0 /\ res = NoRes /\ used = [mids |-> {}, toks |-> {}]
Start == K("start") /\ x' = X0 /\ op' = Op0 /\ res' = NoRes /\ used' = [mids |-> {}, toks |-> {}]

NormOp(o) == IF o.n \in {OPT_BLOCK1, OPT_BLOCK2} THEN [n |-> o.n, v |-> BlockVal(o.v)] ELSE [n |-> o.n, v |-> [b |-> o.v]]
Norm(m) == [m EXCEPT !.ops = [i \in 1..Len(m.ops) |-> NormOp(m.ops[i])]]
\* the datagram of a transmission is the message m
Is(e, m) == e.k = "tx" /\ e.peer = 1 /\ LET q == Parse(e.d) IN q.ok /\ Norm(q.m) = Norm(m)

\* events evs are the start of an exchange of message m (id and token are the client's choice) at time t
Valid(m) == m.type \in {CON, NON} /\ IsRequest(m)
Refusable(m) == m.type \in {ACK, RST} \/ m.cls # 0
Exchange(evs, m, t) ==
    IF evs = <<>>
    THEN \* refused before anything is sent: not a request, or it does not fit in a datagram
         /\ \/ Refusable(m)
            \/ \E n \in 1..8 : Len(Format([m EXCEPT !.tok = [i \in 1..n |-> 0]])) > CMaxMsgLen
            \/ ~Valid(m)
         /\ x' = X0 /\ res' = Res(FAILED, Msg0, t) /\ UNCHANGED used
    ELSE LET q == Parse(evs[1].d)
             w == [m EXCEPT !.mid = q.m.mid, !.tok = q.m.tok]
         IN /\ Len(evs) = 1 /\ ~Refusable(m)
            /\ q.ok /\ Is(evs[1], w)
            /\ q.m.tok # <<>> /\ q.m.tok \notin used.toks /\ q.m.mid \notin used.mids
            /\ used' = [mids |-> used.mids \cup {q.m.mid}, toks |-> used.toks \cup {q.m.tok}]
            /\ IF evs[1].fail = 1 THEN x' = X0 /\ res' = Res(FAILED, Msg0, t)
               ELSE x' = Begun(w, t) /\ res' = NoRes

Call ==
    /\ K("call") /\ x.ph = "off" /\ ~res.has
    /\ IF E.bw = 0
       THEN /\ op' = Op0
            /\ Exchange(E.ev, E.req, E.t)
       ELSE LET g == StartOp(E.req, E.b1, E.b2, E.body)
            IN /\ op' = g.op
               /\ IF g.end THEN E.ev = <<>> /\ x' = X0 /\ res' = Res(g.ret, Msg0, E.t) /\ UNCHANGED used
                  ELSE Exchange(E.ev, g.m, E.t)

Rx ==
    /\ K("rx")
    /\ IF x.ph = "off" THEN E.ev = <<>> /\ UNCHANGED <<x, op, res, used>>
       ELSE
       LET o == React(x, Parse(E.d), E.d, E.t, Len(E.ev) > 0 /\ E.ev[1].fail = 1)
           n == Len(o.tx)
           rest == SubSeq(E.ev, n + 1, Len(E.ev))
       IN /\ ~CMissed(x, E.t)
          /\ Len(E.ev) >= n
          /\ \A i \in 1..n : Is(E.ev[i], o.tx[i])
          /\ IF ~o.done THEN rest = <<>> /\ x' = o.x /\ UNCHANGED <<op, res, used>>
             ELSE IF o.ret < 0 \/ op.st = "none"
             THEN rest = <<>> /\ x' = o.x /\ res' = Res(o.ret, o.m, E.t) /\ UNCHANGED <<op, used>>
             ELSE LET g == Advance(op, x.req.pl, o.m)
                  IN /\ op' = g.op
                     /\ IF g.end THEN rest = <<>> /\ x' = o.x /\ res' = Res(g.ret, o.m, E.t) /\ UNCHANGED used
                        ELSE Exchange(rest, g.m, E.t)

Tmr ==
    /\ K("tmr") /\ ~CMissed(x, E.t) /\ CCanRetransmit(x, E.t)
    /\ Is([E EXCEPT !.k = "tx"], x.req)
    /\ IF E.fail = 1 THEN x' = X0 /\ res' = Res(FAILED, Msg0, E.t) ELSE x' = CRetransmit(x, E.t) /\ UNCHANGED res
    /\ UNCHANGED <<op, used>>

\* (DTLS) an alert or a record that cannot be read ends the exchange; what cannot belong to the session is ignored
Odd ==
    /\ K("alert") \/ K("recerr") \/ K("junk")
    /\ E.ev = <<>>
    /\ IF x.ph = "off" \/ E.k = "junk" THEN (x.ph # "off" => ~CMissed(x, E.t)) /\ UNCHANGED <<x, res>>
       ELSE ~CMissed(x, E.t) /\ x' = X0 /\ res' = Res(IF E.k = "alert" THEN ECONNRESET ELSE FAILED, Msg0, E.t)
    /\ UNCHANGED <<op, used>>

Ret ==
    /\ K("ret") /\ E.halted = 0
    /\ IF res.has
       THEN /\ E.t = res.t
            /\ IF res.ret = FAILED THEN E.ret < 0 /\ E.ret \notin {ETIMEDOUT, ECONNRESET}
               ELSE IF res.ret < 0 THEN E.ret = res.ret
               ELSE /\ E.ret = res.ret
                    /\ Norm(E.resp) = Norm(res.m)
                    /\ op.st # "none" => E.body = op.buf
       ELSE CTimedOut(x, E.t) /\ E.ret = ETIMEDOUT
    /\ x' = X0 /\ res' = NoRes /\ op' = Op0 /\ UNCHANGED used

Fin == K("fin") /\ E.small = 0 /\ E.medium = 0 /\ E.fds = 0 /\ x.ph = "off" /\ UNCHANGED <<x, op, res, used>>
End == K("end") /\ UNCHANGED <<x, op, res, used>>
Next == l' = l + 1 /\ (Start \/ Call \/ Rx \/ Odd \/ Tmr \/ Ret \/ Fin \/ End)
Spec == Init /\ [][Next]_vars
Accepted == MatchedAll
==============================================================================
