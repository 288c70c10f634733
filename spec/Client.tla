------------------------------- MODULE Client -------------------------------
(* The CoAP client: one exchange at a time over a connected datagram socket, and blockwise
   transfers built from exchanges.  Pure operators, used by ClientMC (exhaustive exploration),
   System (client, lossy network and server together) and ClientTrace (recorded executions). *)
EXTENDS Msg, TLC

CAckMin == 2000
CAckMax == 3000
CMaxRetransmit == 4
RespTimeout == 30000
CMaxMsgLen == 1152
ETIMEDOUT == -110
ECONNRESET == -104
FAILED == -1            \* any other negative value

IsResponse(m) == m.cls # 0

------------------------------------------------------------------------------
\* An exchange.  ph: "off", "ack" (request sent, acknowledgement awaited), "resp" (response awaited)
X0 == [ph |-> "off", req |-> Msg0, st |-> 0, T |-> 0, n |-> 0]
Begun(m, t) == [ph |-> IF m.type = CON THEN "ack" ELSE "resp", req |-> m, st |-> t, T |-> 0, n |-> 0]

CDeadline(x) == x.st + x.T * Pow2(x.n)
\* something that had to happen before t did not
CMissed(x, t) ==
    \/ x.ph = "ack" /\ x.T = 0 /\ x.st + CAckMax < t
    \/ x.ph = "ack" /\ x.T # 0 /\ CDeadline(x) < t
    \/ x.ph = "resp" /\ x.st + RespTimeout < t
CCanRetransmit(x, t) ==
    /\ x.ph = "ack" /\ x.n < CMaxRetransmit
    /\ IF x.T = 0 THEN t - x.st \in CAckMin..CAckMax ELSE CDeadline(x) = t
CRetransmit(x, t) == [x EXCEPT !.T = IF x.T = 0 THEN t - x.st ELSE x.T, !.st = t, !.n = x.n + 1]
CTimedOut(x, t) ==
    \/ x.ph = "ack" /\ x.n = CMaxRetransmit /\ CDeadline(x) = t
    \/ x.ph = "resp" /\ x.st + RespTimeout = t

\* Reaction to a datagram d with meaning p at time t; fail: the reply could not be sent.
\* -> [x, tx (messages sent), done, ret, m]
More(x, tx) == [x |-> x, tx |-> tx, done |-> FALSE, ret |-> 0, m |-> Msg0]
Done(x, tx, ret, m) == [x |-> [x EXCEPT !.ph = "off"], tx |-> tx, done |-> TRUE, ret |-> ret, m |-> m]
CAckFor(m) == [Msg0 EXCEPT !.type = ACK, !.mid = m.mid]
CRstFor(mid) == [Msg0 EXCEPT !.type = RST, !.mid = mid]
Rejection(m) == IF m.type = CON THEN <<CRstFor(m.mid)>> ELSE <<>>

React(x, p, d, t, fail) ==
    IF ~p.ok
    THEN Done(x, IF p.err = "bad" /\ HdrType(d) = CON THEN <<CRstFor(HdrMid(d))>> ELSE <<>>, FAILED, Msg0)
    ELSE
    LET m == p.m
        same == m.type \in {ACK, RST} /\ m.mid = x.req.mid
        mine == m.tok = x.req.tok /\ IsResponse(m)
    IN IF same /\ m.type = RST THEN Done(x, <<>>, ECONNRESET, Msg0)
       ELSE IF same /\ x.ph = "ack" /\ IsEmptyCode(m) THEN More([x EXCEPT !.ph = "resp", !.st = t], <<>>)
       ELSE IF same /\ x.ph = "ack" /\ mine
       THEN Done(x, <<>>, IF BadCritical(m) = 0 THEN 0 ELSE FAILED, m)
       ELSE IF same /\ x.ph = "resp" /\ x.req.type = CON THEN More(x, <<>>)        \* repeated acknowledgement
       ELSE IF same THEN Done(x, <<>>, FAILED, Msg0)
       ELSE IF mine /\ m.type = CON
       THEN IF BadCritical(m) # 0 THEN Done(x, Rejection(m), FAILED, Msg0)
            ELSE Done(x, <<CAckFor(m)>>, IF fail THEN FAILED ELSE 0, m)
       ELSE IF mine /\ m.type = NON THEN Done(x, <<>>, IF BadCritical(m) = 0 THEN 0 ELSE FAILED, m)
       ELSE IF mine THEN Done(x, <<>>, FAILED, Msg0)
       ELSE IF Rejection(m) # <<>> /\ fail THEN Done(x, Rejection(m), FAILED, Msg0)
       ELSE More(x, Rejection(m))

------------------------------------------------------------------------------
\* A blockwise operation: st "up" (Block1), "down" (Block2); buf: body to send / space to receive
Op0 == [st |-> "none", req |-> Msg0, b1 |-> 0, b2 |-> 0, buf |-> <<>>, at |-> 0]
\* -> next message to exchange, or the end: [end, ret, op, m]
Go(op, m) == [end |-> FALSE, ret |-> 0, op |-> op, m |-> m]
Stop(op, ret) == [end |-> TRUE, ret |-> ret, op |-> op, m |-> Msg0]

CBlock(n, num, more, size) == [n |-> n, v |-> BlockBytes(3, num, more, size)]
Fits(at, size) == at \div size < Pow2(20)

UpMsg(op) ==
    LET more == op.at + op.b1 < Len(op.buf)
        pl == SubSeq(op.buf, op.at + 1, IF more THEN op.at + op.b1 ELSE Len(op.buf))
        o1 == AddOp(op.req.ops, CBlock(OPT_BLOCK1, op.at \div op.b1, IF more THEN 1 ELSE 0, op.b1))
        o2 == IF more THEN o1 ELSE AddOp(o1, CBlock(OPT_BLOCK2, 0, 0, op.b2))
    IN IF Fits(op.at, op.b1) THEN Go(op, [op.req EXCEPT !.ops = o2, !.pl = pl]) ELSE Stop(op, FAILED)
DownMsg(op) ==
    IF Fits(op.at, op.b2)
    THEN Go(op, [op.req EXCEPT !.ops = AddOp(@, CBlock(OPT_BLOCK2, op.at \div op.b2, 0, op.b2))])
    ELSE Stop(op, FAILED)

StartOp(req, b1, b2, buf) ==
    LET op == [st |-> IF req.det = 1 THEN "down" ELSE "up", req |-> req, b1 |-> b1, b2 |-> b2, buf |-> buf, at |-> 0]
    IN IF req.det \notin {1, 2, 3} THEN Stop(op, FAILED)
       ELSE IF b2 \notin Sizes \/ (op.st = "up" /\ b1 \notin Sizes) THEN Stop(op, FAILED)
       ELSE IF op.st = "up" THEN UpMsg(op) ELSE DownMsg(op)

\* a response with a block of the body to receive
Take(op, r) ==
    LET k == BlockOf(r, OPT_BLOCK2)
        size == Min(k.size, op.b2)
        to == op.at + Len(r.pl)
    IN IF r.cls # 2 THEN Stop(op, 0)
       ELSE IF r.det \notin (IF op.req.det = 1 THEN {31, 5} ELSE {31, 1, 4}) THEN Stop(op, 0)
       ELSE IF ~k.has \/ ~k.ok THEN Stop(op, FAILED)
       ELSE IF k.num * size # op.at THEN Stop(op, FAILED)
       ELSE IF Len(r.pl) > size \/ (k.more = 1 /\ Len(r.pl) # size) THEN Stop(op, FAILED)
       ELSE IF to > Len(op.buf) THEN Stop(op, FAILED)
       ELSE LET o == [op EXCEPT !.b2 = size, !.at = to, !.buf = SubSeq(@, 1, op.at) \o r.pl \o SubSeq(@, to + 1, Len(@))]
            IN IF k.more = 0 THEN Stop(o, to) ELSE DownMsg(o)

\* sent: the payload of the request that r answers
Advance(op, sent, r) ==
    IF op.st = "down" THEN Take(op, r)
    ELSE
    LET k == BlockOf(r, OPT_BLOCK1)
        size == Min(k.size, op.b1)
        o == [op EXCEPT !.b1 = size, !.at = @ + Len(sent)]
    IN IF r.cls # 2 \/ r.det \notin {31, 1, 4} THEN Stop(op, 0)
       ELSE IF ~k.has \/ ~k.ok THEN Stop(op, FAILED)
       ELSE IF k.num * size # op.at THEN Stop(op, FAILED)
       ELSE IF o.at < Len(op.buf) THEN UpMsg(o)
       ELSE IF o.at = 0 \/ r.pl = <<>> THEN Stop(o, 0)
       ELSE Take([o EXCEPT !.st = "down", !.at = 0], r)
==============================================================================
