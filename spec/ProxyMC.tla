------------------------------- MODULE ProxyMC -------------------------------
(* All deliveries of a few requests, cut into pieces anywhere, against all outcomes of creating clients
   and of exchanges: requests are answered one by one in order, each is sent to the server
   its URI names, and at most one client is held. *)
EXTENDS Proxy, TLC
CONSTANTS NReq, Pieces_
\* texts:  GET coap://h H / PUT coaps://h H with body "ab" / GET coap://H:5683 H / DELETE coap://h:9 H / X y z / GET / H
Nl == <<13, 10>>
R1 == T_GET \o <<32,99,111,97,112,58,47,47,104,32,72>> \o Nl \o Nl
R2 == T_PUT \o <<32,99,111,97,112,115,58,47,47,104,32,72>> \o Nl \o <<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,50>> \o Nl \o Nl \o <<97,98>>
R3 == T_GET \o <<32,99,111,97,112,58,47,47,72,58,53,54,56,51,32,72>> \o Nl \o Nl
R4 == T_DELETE \o <<32,99,111,97,112,58,47,47,104,58,57,32,72>> \o Nl \o Nl
R5 == <<88,32,121,32,122>> \o Nl \o Nl
Texts == <<R1, R2, R3, R4, R5>>
\* method, port, lower-case host each of them stands for; R5 is refused
Det == <<1, 3, 1, 4, 0>>
Port == <<T_5683, T_5684, T_5683, <<57>>, <<>>>>
VARIABLES c, reqs, pos, sent, rep, done
\* reqs: indices of the requests sent by the client; pos: bytes delivered; sent: exchanges <<det, target>>; rep: statuses; done
vars == <<c, reqs, pos, sent, rep, done>>
RECURSIVE Cat(_, _)
Cat(rs, i) == IF i > Len(rs) THEN <<>> ELSE Texts[rs[i]] \o Cat(rs, i + 1)
Stream == Cat(reqs, 1)
Init == c = Con0 /\ reqs \in UNION {[1..n -> 1..Len(Texts)] : n \in 1..NReq} /\ pos = 0 /\ sent = <<>> /\ rep = <<>> /\ done = FALSE
Rx == /\ c.ph = "read" /\ pos < Len(Stream)
      /\ \E k \in Pieces_ \cup {Len(Stream) - pos} :
            /\ pos + k <= Len(Stream)
            /\ c' \in Received(c, SubSeq(Stream, pos + 1, pos + k)) /\ pos' = pos + k
      /\ UNCHANGED <<reqs, sent, rep, done>>
Rm == c.ph = "rm" /\ c' = Removed(c) /\ UNCHANGED <<reqs, pos, sent, rep, done>>
Mk == c.ph = "mk" /\ (\E ok \in {TRUE, FALSE} : c' = Made(c, ok)) /\ UNCHANGED <<reqs, pos, sent, rep, done>>
Resps == {[Msg0 EXCEPT !.cls = 2, !.det = 5, !.pl = <<120>>], [Msg0 EXCEPT !.cls = 2, !.det = 5, !.ops = <<Op(23, <<8>>)>>],
          [Msg0 EXCEPT !.cls = 4, !.det = 13]}
Ex == /\ c.ph = "ex" /\ sent' = Append(sent, <<c.m.det, c.tgt, "ex">>)
      /\ \/ \E r \in Resps : c' \in Exchanged(c, 0, r)
         \/ c' \in Exchanged(c, -110, Msg0)
      /\ UNCHANGED <<reqs, pos, rep, done>>
Bw == /\ c.ph = "bw" /\ sent' = Append(sent, <<c.m.det, c.tgt, IF c.have THEN "more" ELSE "again">>)
      /\ \/ c' = Blockwise(c, 0, [Msg0 EXCEPT !.cls = 2, !.det = 4], <<121>>)
         \/ c' = Blockwise(c, -74, Msg0, <<>>)
      /\ UNCHANGED <<reqs, pos, rep, done>>
Tx == c.ph = "tx" /\ rep' = Append(rep, c.want.status) /\ (\E ret \in {1, -1} : c' = Sent(c, ret)) /\ UNCHANGED <<reqs, pos, sent, done>>
Eof == c.ph = "read" /\ pos = Len(Stream) /\ c' = Stop(c) /\ done' = TRUE /\ UNCHANGED <<reqs, pos, sent, rep>>
Next == Rx \/ Rm \/ Mk \/ Ex \/ Bw \/ Tx \/ Eof
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
Firsts == SelectSeq(sent, LAMBDA x : x[3] = "ex")
Valid(rs) == SelectSeq(rs, LAMBDA i : i # 5)
\* exchanges are those of the requests, in order, with the server each names
InOrder == /\ Len(Firsts) <= Len(Valid(reqs))
           /\ \A i \in 1..Len(Firsts) : Firsts[i][1] = Det[Valid(reqs)[i]] /\ Firsts[i][2].port = Port[Valid(reqs)[i]] /\ H!LowerS(Firsts[i][2].host) = <<104>>
\* no request is answered before it is complete, and none twice
RECURSIVE Total(_, _)
Total(rs, n) == IF n = 0 THEN 0 ELSE Total(rs, n - 1) + Len(Texts[rs[n]])
OneEach == Len(rep) <= Len(reqs) /\ (Len(rep) > 0 => pos >= Total(reqs, Len(rep)))
Refused == \A i \in 1..Len(rep) : (reqs[i] = 5) = (rep[i] = 501)
\* a client that sends everything and stays gets all its answers
AllAnswered == done => Len(rep) = Len(reqs)
OneClient == (c.ph = "mk" => ~c.act) /\ (c.ph \in {"ex", "bw"} => c.act /\ SameTgt(c.tgt, c.new))
Live == <>(c.ph = "close")
==============================================================================
