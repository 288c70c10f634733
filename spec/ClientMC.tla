------------------------------ MODULE ClientMC ------------------------------
(* Exhaustive exploration of Client against a peer that may send anything at any time. *)
EXTENDS Client
CONSTANTS Exchanges, MaxRx
VARIABLES x, k, now, res, sent,
          got,       \* the message received last
          heard,     \* a response to the request has arrived
          rx, began, out
vars == <<x, k, now, res, sent, got, heard, rx, began, out>>

McMin == 1
McMax == 1
McRetransmit == 2
McResp == 3

ReqM(i) == [Msg0 EXCEPT !.type = IF i % 2 = 1 THEN CON ELSE NON, !.det = 1, !.mid = 10 + i, !.tok = <<i, 7>>]
\* what the peer may send, relative to the current and the previous request
Tokens(i) == {<<i, 7>>, <<i - 1, 7>>, <<>>}
Mids(i) == {10 + i, 9 + i, 50}
Peer(i) == {m \in {[Msg0 EXCEPT !.type = ty, !.cls = c[1], !.det = c[2], !.mid = id, !.tok = tk, !.ops = o] :
                     ty \in {CON, NON, ACK, RST}, c \in {<<0, 0>>, <<0, 1>>, <<2, 5>>}, id \in Mids(i), tk \in Tokens(i),
                     o \in {<<>>, <<[n |-> 9, v |-> <<>>]>>}} : MsgCheck(m)}
PeerOf == [i \in 1..Exchanges |-> Peer(i)]
Init == /\ x = X0 /\ k = 0 /\ now = 0 /\ res = [has |-> FALSE, ret |-> 0, m |-> Msg0] /\ sent = 0 /\ got = Msg0 /\ heard = FALSE /\ rx = 0
        /\ began = 0 /\ out = <<>>

Begin == /\ x.ph = "off" /\ k < Exchanges
         /\ k' = k + 1 /\ x' = Begun(ReqM(k + 1), now) /\ sent' = 1 /\ began' = now
         /\ res' = [has |-> FALSE, ret |-> 0, m |-> Msg0] /\ got' = Msg0 /\ heard' = FALSE /\ out' = <<>> /\ UNCHANGED <<now, rx>>
Deliver(p, d, fail) ==
    /\ x.ph # "off" /\ rx < MaxRx /\ rx' = rx + 1
    /\ LET o == React(x, p, d, now, fail)
       IN /\ x' = o.x /\ out' = o.tx
          /\ res' = IF o.done THEN [has |-> TRUE, ret |-> o.ret, m |-> o.m] ELSE res
    /\ got' = p.m /\ heard' = (heard \/ (p.ok /\ p.m.tok = <<k, 7>> /\ p.m.type \in {CON, NON} /\ IsResponse(p.m)))
    /\ UNCHANGED <<k, now, sent, began>>
Receive == \/ k > 0 /\ \E m \in PeerOf[k], fail \in BOOLEAN : Deliver([ok |-> TRUE, err |-> "", m |-> m], <<>>, fail)
           \/ \E ty \in {CON, NON} : Deliver(Bad("bad"), <<64 + 16 * ty, 33, 0, 9>>, FALSE)
Timer == /\ CCanRetransmit(x, now) /\ x' = CRetransmit(x, now) /\ sent' = sent + 1 /\ out' = <<x.req>>
         /\ UNCHANGED <<k, now, res, got, heard, rx, began>>
Expire == /\ CTimedOut(x, now) /\ x' = X0 /\ res' = [has |-> TRUE, ret |-> ETIMEDOUT, m |-> Msg0] /\ out' = <<>>
          /\ UNCHANGED <<k, now, sent, got, heard, rx, began>>
Tick == /\ x.ph # "off" /\ ~CMissed(x, now + 1) /\ now' = now + 1 /\ out' = <<>>
        /\ UNCHANGED <<x, k, res, sent, got, heard, rx, began>>
Next == Begin \/ Receive \/ Timer \/ Expire \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ WF_vars(Timer) /\ WF_vars(Expire)
------------------------------------------------------------------------------
\* success means: a response to this very request was received, with acceptable options
Genuine == (res.has /\ res.ret = 0) => /\ res.m = got /\ IsResponse(res.m) /\ res.m.tok = <<k, 7>>
                                       /\ BadCritical(res.m) = 0
                                       /\ res.m.type = ACK => res.m.mid = 10 + k
\* an accepted confirmable response was acknowledged, a rejected one reset; nothing else is sent in reply
Replies == [][Receive => 
                 \A i \in 1..Len(out') : out'[i].type \in {ACK, RST} /\ IsEmptyCode(out'[i])]_vars
Acked == (res.has /\ res.ret = 0 /\ res.m.type = CON) => out = <<CAckFor(res.m)>>
ResetMeansReset == (res.has /\ res.ret = ECONNRESET) => got = [Msg0 EXCEPT !.type = RST, !.mid = 10 + k]
\* bounded effort
Bounded == sent <= CMaxRetransmit + 1 /\ (x.ph # "off" => now - began <= (Pow2(CMaxRetransmit + 1) - 1) * CAckMax + RespTimeout)
NonOnce == (k > 0 /\ ReqM(k).type = NON) => sent <= 1
TimeoutMeansSilence == (res.has /\ res.ret = ETIMEDOUT) => ~heard
\* every exchange ends
Ends == x.ph # "off" ~> x.ph = "off"
==============================================================================
