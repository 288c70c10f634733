------------------------------ MODULE CrossTrace ------------------------------
(* Recorded conversions against Cross. *)
EXTENDS Cross, TraceBase
VARIABLE l
E == Log[l]
K(k) == l <= Len(Log) /\ E.k = k
Init == l = 1
Lines == K("start") \/ K("end")
ToCoapUri == K("uri") /\ LET p == UriOps(E.s) IN IF p.ok THEN E.ret = 0 /\ E.m.ops = p.ops ELSE E.ret < 0
FromCoapUri ==
    /\ K("uriof")
    /\ LET p == UriOfOps(E.m) IN
       IF ~p.ok THEN E.ret = -28
       ELSE LET t == U!UriText(p.u) IN
            IF Len(t) >= E.cap THEN E.ret = -28
            ELSE E.ret = 0 /\ SubSeq(E.buf, 1, Len(t)) = t /\ E.buf[Len(t) + 1] = 0
Req == /\ K("req")
       /\ LET h == H!HttpParse(E.d)
              c == CrossReq(h.m, E.cap)
          IN /\ h.r = "ok"
             /\ IF c.code # 0 THEN E.ret < 0 /\ E.code = c.code
                ELSE E.ret = 0 /\ E.code = 0 /\ E.m = c.m /\ E.body = c.body
Resp == /\ K("resp")
        /\ LET c == CrossResp(E.m, E.body) IN
           IF ~c.ok THEN E.ret < 0 /\ E.code = 502
           ELSE /\ E.ret = 0 /\ E.code = 0
                /\ E.s1 = T_HTTP11 /\ E.s2 = Dec(c.status) /\ E.hdrs = c.hdrs /\ E.hbody = c.body
Next == l' = l + 1 /\ (Lines \/ ToCoapUri \/ FromCoapUri \/ Req \/ Resp)
Spec == Init /\ [][Next]_l
Accepted == MatchedAll
==============================================================================
