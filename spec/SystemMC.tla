------------------------------ MODULE SystemMC ------------------------------
(* One client, one server and the network between them: every order of loss, duplication,
   reordering, retransmission and give-up, for every sequence of operations (single exchanges
   with piggybacked and separate responses, non-confirmable ones, blockwise upload and download).
   Time is abstracted: any timer may expire whenever it runs.

   Wild network: a datagram that was ever sent may be delivered at any later time, any number of
   times.  Tame network: a datagram is not delivered after the exchange during which it was sent. *)
EXTENDS Client, Server
CONSTANTS Kinds, NOps, Tame
VARIABLES x, op, k, ex, kind, res,      \* client: exchange, blockwise operation, number and kind of the operation
          tr, smid,                     \* server
          net,                          \* datagrams in the network: [to, m]
          hist,                         \* calls of the application: [tok, ex, pl] / bodies delivered: [k, body]
          got
vars == <<x, op, k, ex, kind, res, tr, smid, net, hist, got>>
McCR == 1
McSR == 1

C == [seps |-> {<<47, 115>>}, nt |-> 8, large |-> 8, largelen |-> 64]
Pth(c) == <<[n |-> OPT_URI_PATH, v |-> <<c>>]>>
UpBody(i) == [j \in 1..20 |-> (i * 40 + j) % 256]
DownBody == [j \in 1..20 |-> 200 + (j % 16)]
ReqFor(kd) ==
    CASE kd = "con" -> [Msg0 EXCEPT !.type = CON, !.det = 1, !.ops = Pth(97)]
      [] kd = "sep" -> [Msg0 EXCEPT !.type = CON, !.det = 1, !.ops = Pth(115)]
      [] kd = "non" -> [Msg0 EXCEPT !.type = NON, !.det = 1, !.ops = Pth(97)]
      [] kd = "up" -> [Msg0 EXCEPT !.type = CON, !.det = 3, !.ops = Pth(117)]
      [] kd = "down" -> [Msg0 EXCEPT !.type = CON, !.det = 1, !.ops = Pth(100)]
Stamp(m, e) == [m EXCEPT !.mid = 100 + e, !.tok = <<e>>]
NoRes == [has |-> FALSE, ret |-> 0, m |-> Msg0]

Init == /\ x = X0 /\ op = Op0 /\ k = 0 /\ ex = 0 /\ kind = "none" /\ res = NoRes
        /\ tr = [e \in {} |-> Rec0(0)] /\ smid = 500 /\ net = {} /\ hist = <<>> /\ got = <<>>

Send(to, ms) == {[to |-> to, m |-> ms[i]] : i \in 1..Len(ms)}
Survive == IF Tame THEN {} ELSE net

Exchange(m) ==
    /\ ex' = ex + 1 /\ x' = Begun(Stamp(m, ex + 1), 0)
Begin == \E kd \in Kinds :
    /\ x.ph = "off" /\ k < NOps /\ k' = k + 1 /\ kind' = kd /\ res' = NoRes /\ got' = <<>>
    /\ LET g == IF kd = "up" THEN StartOp(ReqFor(kd), 16, 16, UpBody(k + 1))
                ELSE IF kd = "down" THEN StartOp(ReqFor(kd), 16, 16, [j \in 1..40 |-> 0])
                ELSE Go(Op0, ReqFor(kd))
       IN op' = g.op /\ Exchange(g.m)
    /\ net' = Survive \cup Send("srv", <<x'.req>>)
    /\ UNCHANGED <<tr, smid, hist>>

ToClient == \E dg \in net :
    /\ dg.to = "cli" /\ x.ph # "off"
    /\ LET o == React(x, [ok |-> TRUE, err |-> "", m |-> dg.m], <<>>, 0, FALSE)
           left == net \cup Send("srv", o.tx)
       IN IF ~o.done THEN /\ x' = o.x /\ net' = left /\ UNCHANGED <<op, ex, res, got>>
          ELSE IF o.ret < 0 \/ op.st = "none"
          THEN /\ x' = o.x /\ res' = [has |-> TRUE, ret |-> o.ret, m |-> o.m] /\ net' = left /\ UNCHANGED <<op, ex, got>>
          ELSE LET g == Advance(op, x.req.pl, o.m)
               IN /\ op' = g.op
                  /\ IF g.end THEN /\ x' = o.x /\ res' = [has |-> TRUE, ret |-> g.ret, m |-> o.m] /\ net' = left
                                   /\ got' = (IF g.ret > 0 THEN SubSeq(g.op.buf, 1, g.ret) ELSE <<>>) /\ UNCHANGED ex
                     ELSE /\ Exchange(g.m) /\ UNCHANGED <<res, got>>
                          /\ net' = Survive \cup Send("srv", <<x'.req>>) \cup Send("srv", o.tx)
    /\ UNCHANGED <<k, kind, tr, smid, hist>>

Handler(m) ==
    LET p == CStr(PathBytes(m), 256) IN
    IF p = <<47, 117>> THEN [kind |-> 2, b1 |-> 16, b2 |-> 16, hasrx |-> 1, body |-> <<>>]
    ELSE IF p = <<47, 100>> THEN [kind |-> 2, b1 |-> 16, b2 |-> 16, hasrx |-> 0, body |-> DownBody]
    ELSE [kind |-> 0, cls |-> 2, det |-> 5, pl |-> <<Len(hist) + 1>>, opn |-> 0, opv |-> <<>>]
Brx == [ret |-> 0, cls |-> 2, det |-> 4, rb |-> <<>>]
ToServer == \E dg \in net :
    /\ dg.to = "srv"
    /\ \E tr1 \in Admit(tr, 1, 0, 8) :
       LET h == Handler(dg.m)
           o == Outcome(tr1, 1, 0, [ok |-> TRUE, err |-> "", m |-> dg.m], <<>>, h, Brx, [i \in 1..3 |-> FALSE], [mid |-> smid, pl |-> <<>>], C)
           txs == SelectSeq(o.exp, LAMBDA e : e.k = "tx")
           calls == SelectSeq(o.exp, LAMBDA e : e.k # "tx")
       IN /\ tr' = o.tr
          /\ net' = net \cup {[to |-> "cli", m |-> txs[i].m] : i \in 1..Len(txs)}
          /\ smid' = IF \E i \in 1..Len(txs) : txs[i].fresh THEN smid + 1 ELSE smid
          /\ hist' = hist \o [i \in 1..Len(calls) |->
                IF calls[i].k = "h" THEN [k |-> "h", tok |-> dg.m.tok, op |-> k, pl |-> IF h.kind = 0 THEN h.pl ELSE <<>>]
                ELSE [k |-> "brx", tok |-> dg.m.tok, op |-> k, pl |-> calls[i].body]]
    /\ UNCHANGED <<x, op, k, ex, kind, res, got>>

CTimer == /\ x.ph = "ack" /\ x.n < CMaxRetransmit /\ x' = [x EXCEPT !.n = @ + 1] /\ net' = net \cup Send("srv", <<x.req>>)
          /\ UNCHANGED <<op, k, ex, kind, res, tr, smid, hist, got>>
CGiveUp == /\ (x.ph = "ack" /\ x.n = CMaxRetransmit) \/ x.ph = "resp"
           /\ x' = X0 /\ res' = [has |-> TRUE, ret |-> ETIMEDOUT, m |-> Msg0]
           /\ UNCHANGED <<op, k, ex, kind, tr, smid, net, hist, got>>
STimer == \E e \in DOMAIN tr :
    /\ tr[e].on
    /\ IF tr[e].n < MaxRetransmit THEN tr' = [tr EXCEPT ![e].n = @ + 1] /\ net' = net \cup Send("cli", <<tr[e].resp>>)
       ELSE \* the schedules of client and server make the server give up long after
            \* the last retransmission of the request
            /\ Tame => (x.ph # "ack" \/ tr[e].resp.tok # x.req.tok)
            /\ tr' = Without(tr, e)
            /\ net' = IF Tame THEN {dg \in net : dg.to = "cli" \/ dg.m.tok # tr[e].resp.tok} ELSE net
    /\ UNCHANGED <<x, op, k, ex, kind, res, smid, hist, got>>
Next == Begin \/ ToClient \/ ToServer \/ CTimer \/ CGiveUp \/ STimer
Bound == Len(hist) <= NOps + 2 /\ smid <= 504
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Hs(kd) == {i \in 1..Len(hist) : hist[i].k = kd}
Success == res.has /\ res.ret >= 0
\* a successful exchange returns a response that the application produced for this very request
\* (an error may also come from the library: a request that interrupts an abandoned blockwise transfer gets 4.00)
Genuine == (Success /\ op.st = "none" /\ res.m.cls = 2) => \E i \in Hs("h") : hist[i].tok = <<ex>> /\ hist[i].pl = res.m.pl
\* the application sees every request at most once
Once == Tame => \A i, j \in 1..Len(hist) : (i # j /\ hist[i].tok = hist[j].tok /\ hist[i].k = hist[j].k) => FALSE
\* an uploaded body is delivered whole, at most once, to an operation that sent it; success means delivered
Whole == Tame => /\ \A i \in Hs("brx") : \E j \in 1..k : hist[i].pl = UpBody(j)
                 /\ \A i, j \in Hs("brx") : i # j => hist[i].pl # hist[j].pl
                 /\ (kind = "up" /\ Success /\ res.m.cls = 2) => \E i \in Hs("brx") : hist[i].pl = UpBody(k)
\* a downloaded body is the resource's
Fetched == (kind = "down" /\ Success /\ res.m.cls = 2) => got = DownBody
==============================================================================
