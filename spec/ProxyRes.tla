------------------------------ MODULE ProxyRes ------------------------------
(* Connections of the proxy while heap allocations fail.  A failure may, at any point, end the connection
   (the CoAP client given back, the socket closed once) or turn the answer to the current request
   into a well-formed error response; apart from that everything is as in Proxy: no request is
   sent altered or twice and no response is altered, and nothing stays allocated. *)
EXTENDS ProxyTrace
Busy == c.ph \in {"rm", "mk", "ex", "bw", "tx"}
\* without memory for the connection there is none
NoCon == K("fin") /\ E.new = 0 /\ c = Con0 /\ E.leak = 0 /\ E.pool = 0 /\ c' = [c EXCEPT !.ph = "closed"]
ErrText(d) == Len(d) > 12 /\ d[10] \in {52, 53} /\ H!IsDigit(d[11]) /\ H!IsDigit(d[12])
              /\ RespText(ErrResp((d[10] - 48) * 100 + (d[11] - 48) * 10 + (d[12] - 48)), d)
FErr == K("tx") /\ Busy /\ ErrText(E.d) /\ c' = Sent(c, E.ret)
FRm == K("rm") /\ c.act /\ c' = [Stop(c) EXCEPT !.act = FALSE]
FClose == K("close") /\ c.ph # "closed" /\ ~c.act /\ E.peer = 77 /\ c' = [c EXCEPT !.ph = "closed"]
RNext == Next \/ (Step /\ (NoCon \/ FErr \/ FRm \/ FClose))
RSpec == Init /\ [][RNext]_vars
==============================================================================
