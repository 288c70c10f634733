------------------------------ MODULE ProxyTrace ------------------------------
(* Recorded connections of the proxy against Proxy. *)
EXTENDS Proxy, TraceBase
VARIABLES l, c
vars == <<l, c>>
E == Log[l]
K(k) == l <= Len(Log) /\ E.k = k
Step == l' = l + 1
T_ck == <<99,107>>
T_cc == <<99,99>>
T_ct == <<99,116>>
Init == l = 1 /\ c = Con0
Begin == K("start") /\ c' = Con0
End == K("end") /\ c.ph = "closed" /\ UNCHANGED c
Rx == K("rx") /\ c.ph = "read" /\ c' \in Received(c, E.d)
\* the connection ends when its input does, and not while received bytes were not looked at
Eof == (K("eof") \/ K("rerr") \/ (K("rto") /\ E.pend = 0)) /\ c.ph = "read" /\ c' = Stop(c)
Rm == /\ K("rm")
      /\ \/ c.ph = "rm" /\ c' = Removed(c)
         \/ c.ph = "close" /\ c.act /\ c' = [c EXCEPT !.act = FALSE]
Mk == K("mk") /\ c.ph = "mk" /\ E.host = c.new.host /\ E.port = c.new.port /\ E.key = T_ck /\ E.cert = T_cc /\ E.trust = T_ct /\ c' = Made(c, E.ret = 0)
Ex == K("ex") /\ c.ph = "ex" /\ E.m = c.m /\ c' \in Exchanged(c, E.ret, E.r)
Bw == /\ K("bw") /\ c.ph = "bw" /\ E.m = c.m /\ E.b1 = c.b1 /\ E.b2 = c.b1
      /\ IF c.have THEN E.have = 1 /\ E.cap = BodyCap /\ E.first = c.rsp ELSE E.have = 0 /\ E.body = c.body
      /\ c' = Blockwise(c, E.ret, E.r, E.out)
Tx == K("tx") /\ c.ph = "tx" /\ RespText(c.want, E.d) /\ c' = Sent(c, E.ret)
Close == K("close") /\ c.ph = "close" /\ ~c.act /\ E.peer = 77 /\ c' = [c EXCEPT !.ph = "closed"]
Fin == K("fin") /\ c.ph = "closed" /\ E.leak = 0 /\ E.pool = 0 /\ UNCHANGED c
Next == Step /\ (Begin \/ End \/ Rx \/ Eof \/ Rm \/ Mk \/ Ex \/ Bw \/ Tx \/ Close \/ Fin)
Spec == Init /\ [][Next]_vars
Accepted == MatchedAll
==============================================================================
