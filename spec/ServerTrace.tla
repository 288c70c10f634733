----------------------------- MODULE ServerTrace -----------------------------
(* A recorded run of the real server is accepted iff it is a behaviour of Server: for every
   received datagram and every timer expiry, exactly the application calls and datagrams that
   the specification prescribes, at the prescribed virtual time. *)
EXTENDS Server, TraceBase
VARIABLES l, tr, cfg, mids
vars == <<l, tr, cfg, mids>>
E == Log[l]
K(k) == l <= Len(Log) /\ E.k = k

NoTr == [e \in {} |-> Rec0(0)]
NoCfg == [seps |-> {}, nt |-> 8, large |-> 0, largelen |-> 0]
Init == l = 1 /\ tr = NoTr /\ cfg = NoCfg /\ mids = {}

Start == K("start") /\ tr' = NoTr /\ cfg' = NoCfg /\ mids' = {}
Cfg == /\ K("cfg") /\ UNCHANGED <<tr, mids>>
       /\ cfg' = [seps |-> {E.seps[i] : i \in 1..Len(E.seps)}, nt |-> 8, large |-> E.large, largelen |-> E.largelen]

Sel(k) == SelectSeq(E.ev, LAMBDA x : x.k = k)
DefaultH == [kind |-> 1, ret |-> -1]
\* block option values compare by meaning
NormOp(o) == IF o.n \in {OPT_BLOCK1, OPT_BLOCK2} THEN [n |-> o.n, v |-> BlockVal(o.v)] ELSE [n |-> o.n, v |-> [b |-> o.v]]
Norm(m) == [m EXCEPT !.ops = [i \in 1..Len(m.ops) |-> NormOp(m.ops[i])]]
SameMsg(d, x) ==
    LET q == Parse(d)
    IN /\ q.ok
       /\ Norm(q.m) = Norm(x.m)
EvOK(e, x, ep, m) ==
    /\ e.k = x.k
    /\ CASE e.k = "tx" -> e.ep = ep /\ SameMsg(e.d, x)
         [] e.k = "h" -> e.req = m
         [] e.k = "brx" -> e.req = m /\ e.body = x.body

\* message id of the last datagram sent in this step, if any
TxPl == LET s == Sel("tx") IN IF s = <<>> THEN <<>> ELSE Parse(s[Len(s)].d).m.pl
TxMid == LET s == Sel("tx") IN IF s = <<>> THEN 0 ELSE HdrMid(s[Len(s)].d)

Rx ==
    /\ K("rx")
    /\ LET t == E.t
           ep == E.ep
           p == Parse(E.d)
           txs == Sel("tx")
           hs == Sel("h")
           bs == Sel("brx")
           h == IF hs = <<>> THEN DefaultH ELSE hs[1]
           b == IF bs = <<>> THEN NoBrx ELSE bs[1]
           f == [i \in 1..3 |-> IF i <= Len(txs) THEN txs[i].fail = 1 ELSE FALSE]
       IN /\ ~Missed(tr, t)
          /\ \A i \in 1..Len(txs) : Len(txs[i].d) >= 4
          /\ \E tr1 \in Admit(Expire(tr, t), ep, t, cfg.nt) :
                LET o == Outcome(tr1, ep, t, p, E.d, h, b, f, [mid |-> TxMid, pl |-> TxPl], cfg)
                    n == Len(o.exp)
                    fresh == n > 0 /\ o.exp[n].k = "tx" /\ o.exp[n].fresh
                IN /\ Len(E.ev) = n
                   /\ \A i \in 1..n : EvOK(E.ev[i], o.exp[i], ep, p.m)
                   /\ fresh => <<ep, TxMid>> \notin mids
                   /\ mids' = IF fresh THEN mids \cup {<<ep, TxMid>>} ELSE mids
                   /\ tr' = o.tr
    /\ UNCHANGED cfg

\* a datagram sent without a preceding reception: a retransmission that is due
Tmr ==
    /\ K("tmr") /\ ~Missed(tr, E.t)
    /\ LET tr1 == Expire(tr, E.t)
       IN /\ E.ep \in DOMAIN tr1
          /\ CanRetransmit(tr1[E.ep], E.t)
          /\ SameMsg(E.d, Tx(tr1[E.ep].resp))
          /\ tr' = IF E.fail = 1 THEN Without(tr1, E.ep) ELSE With(tr1, E.ep, Retransmit(tr1[E.ep], E.t))
    /\ UNCHANGED <<cfg, mids>>

\* the server only stops when the harness takes the network away, and then owns nothing
Ret == K("ret") /\ E.halted = 1 /\ ~Missed(tr, E.t) /\ UNCHANGED <<tr, cfg, mids>>
Fin == K("fin") /\ E.small = 0 /\ E.medium = 0 /\ E.large = 0 /\ E.fds = 0 /\ UNCHANGED <<tr, cfg, mids>>
End == K("end") /\ UNCHANGED <<tr, cfg, mids>>

Next == l' = l + 1 /\ (Start \/ Cfg \/ Rx \/ Tmr \/ Ret \/ Fin \/ End)
Spec == Init /\ [][Next]_vars
Inv == Cardinality(DOMAIN tr) <= 8
Accepted == MatchedAll
==============================================================================
