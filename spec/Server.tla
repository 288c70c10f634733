------------------------------- MODULE Server -------------------------------
(* The CoAP server: what it does with every datagram, timer expiry and handler outcome.
   The table of transactions maps an endpoint to what the server remembers about it; it is
   bounded, and a new endpoint displaces the one that was least recently active.

   The operators are pure: ServerMC explores them exhaustively with small constants, and
   ServerTrace checks recorded executions of the real server with them. *)
EXTENDS Msg, TLC

AckTimeoutMin == 2000
AckTimeoutMax == 3000
MaxRetransmit == 4
MaxMsgLen == 1152
\* resolution at which the server remembers activity
Sec(t) == t \div 1000

NoBw == [ty |-> "none", body |-> <<>>, cap |-> 0, b1 |-> 0, b2 |-> 0, n1 |-> 0, n2 |-> 0, uri |-> <<>>, det |-> 0]
\* req: message id of the last request, -1 none; resp: the response to it;
\* on/st/T/n: retransmission timer (start of the interval, initial timeout once known, retransmissions)
Rec0(t) == [used |-> Sec(t), req |-> -1, resp |-> Msg0, on |-> FALSE, st |-> 0, T |-> 0, n |-> 0, bw |-> NoBw]

Without(f, e) == [x \in (DOMAIN f) \ {e} |-> f[x]]
With(f, e, v) == (e :> v) @@ f

------------------------------------------------------------------------------
\* Retransmission of separate responses
Deadline(r) == r.st + r.T * Pow2(r.n)
Lapsed(r, t) == r.on /\ r.n = MaxRetransmit /\ Deadline(r) < t
\* transactions whose last acknowledgement interval is over are forgotten
Expire(tr, t) == [e \in {x \in DOMAIN tr : ~Lapsed(tr[x], t)} |-> tr[e]]
\* a retransmission that should have happened before t
Missed(tr, t) == \E e \in DOMAIN tr :
    /\ tr[e].on
    /\ \/ tr[e].T = 0 /\ tr[e].st + AckTimeoutMax < t
       \/ tr[e].T # 0 /\ tr[e].n < MaxRetransmit /\ Deadline(tr[e]) < t
CanRetransmit(r, t) ==
    /\ r.on /\ r.n < MaxRetransmit
    /\ IF r.T = 0 THEN t - r.st \in AckTimeoutMin..AckTimeoutMax ELSE Deadline(r) = t
Retransmit(r, t) ==
    [r EXCEPT !.T = IF r.T = 0 THEN t - r.st ELSE r.T, !.st = t, !.n = r.n + 1, !.used = Sec(t)]

------------------------------------------------------------------------------
\* The table
Oldest(tr) == {e \in DOMAIN tr : \A x \in DOMAIN tr : tr[e].used <= tr[x].used}
Admit(tr, ep, t, nt) ==
    IF ep \in DOMAIN tr THEN {tr}
    ELSE IF Cardinality(DOMAIN tr) < nt THEN {With(tr, ep, Rec0(t))}
    ELSE {With(Without(tr, v), ep, Rec0(t)) : v \in Oldest(tr)}

------------------------------------------------------------------------------
\* Library-level blockwise transfers.  A response under construction: [cls, det, ops, pl].
R0 == [cls |-> 0, det |-> 0, ops |-> <<>>, pl |-> <<>>]
NoBrx == [ret |-> 0, cls |-> 0, det |-> 0, rb |-> <<>>]
Code(r, c, d) == [r EXCEPT !.cls = c, !.det = d]
BRes(ok, r, bw, rx) == [ok |-> ok, r |-> r, bw |-> bw, rx |-> rx]     \* rx: bodies handed to the application
Method(ty) == IF ty = "GET" THEN 1 ELSE IF ty \in {"POST1", "POST2"} THEN 2 ELSE 3
FitsBlock(start, size) == (start \div size) < Pow2(20)
BlockOpt(n, num, more, size) == [n |-> n, v |-> BlockBytes(3, num, more, size)]

\* the client may ask for smaller blocks
Shrink(bw, m) ==
    LET k1 == BlockOf(m, OPT_BLOCK1)
        k2 == BlockOf(m, OPT_BLOCK2)
    IN [bw EXCEPT !.b1 = IF k1.has /\ k1.ok /\ k1.size < @ THEN k1.size ELSE @,
                  !.b2 = IF k2.has /\ k2.ok /\ k2.size < @ THEN k2.size ELSE @]

\* next block of a body going to the client
BlockOut(bw, m, r) ==
    LET k2 == BlockOf(m, OPT_BLOCK2)
        more == bw.n2 + bw.b2 <= Len(bw.body)
        pl == SubSeq(bw.body, bw.n2 + 1, IF more THEN bw.n2 + bw.b2 ELSE Len(bw.body))
        r1 == [r EXCEPT !.ops = AddOp(@, BlockOpt(OPT_BLOCK2, bw.n2 \div bw.b2, IF more THEN 1 ELSE 0, bw.b2)),
                        !.pl = pl]
    IN IF m.det # Method(bw.ty) \/ CStr(PathBytes(m), 256) # bw.uri \/ k2.num * bw.b2 # bw.n2
       THEN BRes(TRUE, Code(r, 4, 0), NoBw, <<>>)
       ELSE IF bw.b2 \notin Sizes THEN BRes(FALSE, r, NoBw, <<>>)
       ELSE IF ~FitsBlock(bw.n2, bw.b2) THEN BRes(FALSE, r, NoBw, <<>>)
       ELSE IF more THEN BRes(TRUE, Code(r1, 2, 31), [bw EXCEPT !.n2 = @ + Len(pl)], <<>>)
       ELSE BRes(TRUE, Code(r1, 2, IF bw.ty = "GET" THEN 5 ELSE bw.det), NoBw, <<>>)

\* next block of a body coming from the client
BlockIn(bw, m, r, brx) ==
    LET k1 == BlockOf(m, OPT_BLOCK1)
        body == bw.body \o m.pl
        r1 == [r EXCEPT !.ops = AddOp(@, BlockOpt(OPT_BLOCK1, bw.n1 \div bw.b1, k1.more, bw.b1))]
    IN IF m.det # Method(bw.ty) \/ CStr(PathBytes(m), 256) # bw.uri THEN BRes(TRUE, Code(r, 4, 0), NoBw, <<>>)
       ELSE IF k1.num * bw.b1 # bw.n1 THEN BRes(TRUE, Code(r, 4, 8), NoBw, <<>>)
       ELSE IF m.pl = <<>> THEN BRes(TRUE, Code(r, 4, 0), NoBw, <<>>)
       ELSE IF bw.b1 \notin Sizes THEN BRes(FALSE, r, NoBw, <<>>)
       ELSE IF Len(body) > bw.cap THEN BRes(TRUE, Code(r, 4, 13), NoBw, <<>>)
       ELSE IF ~FitsBlock(bw.n1, bw.b1) THEN BRes(FALSE, r, NoBw, <<>>)
       ELSE IF k1.more = 1
       THEN BRes(TRUE, Code(r1, 2, 31), [bw EXCEPT !.body = body, !.n1 = @ + Len(m.pl)], <<>>)
       \* complete: the application gets the whole body, exactly once
       ELSE IF brx.ret < 0 THEN BRes(FALSE, r1, NoBw, <<body>>)
       ELSE IF brx.cls # 2 THEN BRes(TRUE, Code(r1, brx.cls, brx.det), NoBw, <<body>>)
       ELSE IF brx.rb = <<>> THEN BRes(TRUE, Code(r1, 2, brx.det), NoBw, <<body>>)
       ELSE LET b2 == [bw EXCEPT !.ty = IF bw.ty = "PUT1" THEN "PUT2" ELSE "POST2", !.det = brx.det,
                                 !.body = brx.rb, !.n1 = @ + Len(m.pl)]
                o == BlockOut(b2, m, Code(r1, 2, brx.det))
            IN [o EXCEPT !.rx = <<body>>]

NextBlock(bw0, m, r, brx) ==
    LET bw == Shrink(bw0, m)
    IN IF ~BlockOf(m, OPT_BLOCK1).ok \/ ~BlockOf(m, OPT_BLOCK2).ok THEN BRes(TRUE, Code(r, 4, 0), NoBw, <<>>)
       ELSE IF bw.ty \in {"PUT1", "POST1"} THEN BlockIn(bw, m, r, brx)
       ELSE BlockOut(bw, m, r)

\* the application asks the library to carry out a transfer
StartBlockwise(h, m, brx, nolarge, largelen) ==
    LET bw == [NoBw EXCEPT !.b1 = h.b1, !.b2 = h.b2, !.cap = largelen, !.uri = CStr(PathBytes(m), 256)]
    IN IF (h.b1 # 0 /\ h.b1 \notin Sizes) \/ (h.b2 # 0 /\ h.b2 \notin Sizes) \/ Len(h.body) > largelen \/ nolarge
       THEN BRes(FALSE, R0, NoBw, <<>>)
       ELSE IF m.det = 1 THEN NextBlock([bw EXCEPT !.ty = "GET", !.body = h.body], m, R0, brx)
       ELSE IF m.det \in {2, 3}
       THEN IF h.hasrx = 0 THEN BRes(FALSE, R0, NoBw, <<>>)
            ELSE NextBlock([bw EXCEPT !.ty = IF m.det = 2 THEN "POST1" ELSE "PUT1"], m, R0, brx)
       ELSE BRes(TRUE, Code(R0, 5, 1), NoBw, <<>>)

------------------------------------------------------------------------------
\* One datagram.  Expected events, in order:
Tx(m) == [k |-> "tx", m |-> m, fresh |-> FALSE]
HEv == [k |-> "h"]
BrxEv(body) == [k |-> "brx", body |-> body]
EmptyAck(mid) == [Msg0 EXCEPT !.type = ACK, !.mid = mid]
Reset(mid) == [Msg0 EXCEPT !.type = RST, !.mid = mid]
Out(tr, exp) == [tr |-> tr, exp |-> exp]

IsSep(m, seps) == m.type = CON /\ CStr(PathBytes(m), 256) \in seps
LargeInUse(tr) == Cardinality({e \in DOMAIN tr : tr[e].bw.ty # "none"})

\* p: the parsed datagram d; h, brx: what the application does if it is asked; f: which sends
\* fail; w: free choices of the server ([mid, pl]: own message ids, diagnostic text); C: configuration
Outcome(tr, ep, t, p, d, h, brx, f, w, C) ==
    IF ~p.ok
    THEN Out(Without(tr, ep), IF p.err = "bad" /\ HdrType(d) = CON THEN <<Tx(Reset(HdrMid(d)))>> ELSE <<>>)
    ELSE
    LET m == p.m
        r == [tr[ep] EXCEPT !.used = Sec(t)]
        keep == With(tr, ep, r)
        gone == Without(tr, ep)
    IN IF m.type \in {CON, NON} /\ r.req = m.mid
       THEN \* duplicate of the last request
            IF m.type = NON THEN Out(keep, <<>>)
            ELSE Out(IF f[1] THEN gone ELSE keep, <<Tx(IF IsSep(m, C.seps) THEN EmptyAck(m.mid) ELSE r.resp)>>)
       ELSE IF m.type \in {ACK, RST} /\ r.req # -1 /\ r.resp.mid = m.mid
       THEN \* the client has the response
            Out(With(tr, ep, [r EXCEPT !.on = FALSE]), <<>>)
       ELSE IF m.type \in {ACK, RST} \/ ~IsRequest(m)
       THEN Out(IF r.req = -1 THEN gone ELSE keep, IF m.type = CON THEN <<Tx(Reset(m.mid))>> ELSE <<>>)
       ELSE
       LET sep == IsSep(m, C.seps)
           acks == IF sep THEN <<Tx(EmptyAck(m.mid))>> ELSE <<>>
           bad == BadCritical(m)
           cont == r.bw.ty # "none"
           b == IF bad # 0 THEN BRes(TRUE, Code(R0, 4, 2), r.bw, <<>>)
                ELSE IF cont THEN NextBlock(r.bw, m, R0, brx)
                ELSE IF h.kind = 0
                THEN BRes(TRUE, [cls |-> h.cls, det |-> h.det, pl |-> h.pl,
                                 ops |-> IF h.opn = 0 THEN <<>> ELSE <<[n |-> h.opn, v |-> h.opv]>>], NoBw, <<>>)
                ELSE IF h.kind = 1 THEN BRes(h.ret >= 0, R0, NoBw, <<>>)
                ELSE StartBlockwise(h, m, brx, LargeInUse(tr) >= C.large, C.largelen)
           calls == (IF bad = 0 /\ ~cont THEN <<HEv>> ELSE <<>>)
                    \o (IF b.rx = <<>> THEN <<>> ELSE <<BrxEv(b.rx[1])>>)
           pig == m.type = CON /\ ~sep
           resp == [type |-> IF pig THEN ACK ELSE IF sep THEN CON ELSE NON,
                    cls |-> b.r.cls, det |-> b.r.det, mid |-> IF pig THEN m.mid ELSE w.mid,
                    tok |-> m.tok, ops |-> b.r.ops, pl |-> IF bad # 0 THEN w.pl ELSE b.r.pl]
           fits == Len(Format(resp)) <= MaxMsgLen
           tx == [Tx(resp) EXCEPT !.fresh = ~pig]
           k == Len(acks) + 1
       IN IF sep /\ f[1] THEN Out(gone, acks)
          ELSE IF ~b.ok \/ ~fits THEN Out(gone, acks \o calls)
          ELSE IF f[k] THEN Out(gone, acks \o calls \o <<tx>>)
          ELSE Out(With(tr, ep, [r EXCEPT !.req = m.mid, !.resp = resp, !.on = sep, !.st = t, !.T = 0, !.n = 0, !.bw = b.bw]),
                   acks \o calls \o <<tx>>)
==============================================================================
