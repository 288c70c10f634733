-------------------------------- MODULE Proxy --------------------------------
(* A connection of the HTTP/CoAP proxy: bytes of requests arrive in pieces; each complete request is
   converted, exchanged with the CoAP server its URI names (over the client kept for that server,
   blockwise where needed) and answered with exactly one response, in order.
   The state is a record; "ph" says what has to happen next:
     read | rm | mk | ex | bw (exchange blockwise) | tx | close | rmclose | closed *)
EXTENDS Cross
None == U!None
BodyCap == 8192
RecvMust == 32768 - 128            \* requests up to this length are accepted
RecvMax == 32768                   \* longer ones end the connection
T_5683 == <<53,54,56,51>>
T_5684 == <<53,54,56,52>>
NoTgt == [host |-> None, port |-> None]
Con0 == [ph |-> "read", buf |-> <<>>, tgt |-> NoTgt, act |-> FALSE, new |-> NoTgt, m |-> Msg0, body |-> <<>>, have |-> FALSE, b1 |-> 0, want |-> [status |-> 0], rsp |-> Msg0]

Answer(c, code) == [c EXCEPT !.ph = "tx", !.want = ErrResp(code)]
Stop(c) == [c EXCEPT !.ph = "close"]
SameTgt(a, b) == H!LowerS(a.host) = H!LowerS(b.host) /\ a.port = b.port
\* after the client for the target exists
Start(c) == IF c.body # <<>> /\ c.m.det \in {2, 3} THEN [c EXCEPT !.ph = "bw", !.have = FALSE, !.b1 = 32] ELSE [c EXCEPT !.ph = "ex"]
Request(c, h) ==
    LET q == CrossReq(h, BodyCap)
        u == U!UriParse(h.start[2]).u
        port == IF u.port \in {None, <<>>} THEN (IF H!LowerS(u.scheme) = T_coap THEN T_5683 ELSE T_5684) ELSE u.port
        t == [host |-> u.host, port |-> port]
        c1 == [c EXCEPT !.m = q.m, !.body = q.body, !.new = t]
    IN IF q.code # 0 THEN Answer(c, q.code)
       ELSE IF u.host = None THEN Answer(c, 400)
       ELSE IF ~c.act THEN [c1 EXCEPT !.ph = "mk"]
       ELSE IF ~SameTgt(t, c.tgt) THEN [c1 EXCEPT !.ph = "rm"]
       ELSE Start(c1)
\* what follows from the bytes in the buffer
Settle(c) ==
    LET p == H!HttpParse(c.buf) IN
    CASE c.buf = <<>> \/ p.r = "more" -> [c EXCEPT !.ph = "read"]
      [] p.r = "bad" -> Stop(c)
      [] p.r = "ok" -> Request([c EXCEPT !.buf = SubSeq(c.buf, p.n + 1, Len(c.buf))], p.m)
\* bytes received; the connection may (must) end if they are too many for one request
Received(c, d) ==
    LET b == [c EXCEPT !.buf = c.buf \o d]
        s == Settle(b)
    IN CASE s.ph # "read" \/ Len(b.buf) <= RecvMust -> {s}
         [] Len(b.buf) > RecvMax -> {Stop(b)}
         [] OTHER -> {s, Stop(b)}
Removed(c) == [c EXCEPT !.ph = "mk", !.act = FALSE, !.tgt = NoTgt]
Made(c, ok) == IF ok THEN Start([c EXCEPT !.act = TRUE, !.tgt = c.new]) ELSE Stop([c EXCEPT !.act = FALSE, !.tgt = NoTgt])
\* the result of a failed exchange
ErrCode(e) == IF e = -110 THEN 504 ELSE IF e = -74 THEN 502 ELSE 501
Convert(c, r, body) == LET x == CrossResp(r, body) IN IF x.ok THEN [c EXCEPT !.ph = "tx", !.want = x] ELSE Answer(c, 502)
Exchanged(c, ret, r) ==
    LET b == BlockOf(r, 23) IN
    IF ret < 0 THEN {Answer(c, ErrCode(ret))}
    ELSE IF c.m.det = 1 /\ b.has
    THEN IF b.ok THEN {[c EXCEPT !.ph = "bw", !.have = TRUE, !.b1 = b.size, !.rsp = r, !.body = <<>>]} ELSE {Answer(c, 501), Answer(c, 502)}
    ELSE IF c.m.det \in {2, 3} /\ b.has /\ b.ok /\ b.more = 1 THEN {Answer(c, 502)}
    ELSE IF c.m.det \in {2, 3} /\ r.cls = 4 /\ r.det = 13
    THEN {[c EXCEPT !.ph = "bw", !.have = FALSE, !.b1 = 32, !.body = c.m.pl, !.m = [c.m EXCEPT !.pl = <<>>], !.rsp = r]}
    ELSE {Convert(c, r, <<>>)}
Blockwise(c, ret, r, out) == IF ret < 0 THEN Answer(c, ErrCode(ret)) ELSE Convert(c, r, out)
\* the response text: status line with a free reason, then exactly the headers and the body
RespText(w, d) ==
    LET e == H!Crlf(d, 1)
        l == T_HTTP11 \o <<32>> \o Dec(w.status) \o <<32>>
    IN e > Len(l) /\ SubSeq(d, 1, Len(l)) = l /\ SubSeq(d, e + 2, Len(d)) = H!HdrText(w.hdrs, 1) \o H!Crlf2 \o w.body
Sent(c, ret) == IF ret = 1 THEN Settle(c) ELSE Stop(c)
==============================================================================
