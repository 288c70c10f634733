--------------------------- MODULE DtlsServerTrace ---------------------------
(* Recorded runs of the server built with DTLS.  On top of Server: an endpoint is served only over a session whose
   handshake has completed (and whose certificate is accepted, where clients are authenticated); a
   session that ends is closed towards its peer exactly once, and none is kept for longer. *)
EXTENDS ServerTrace, Dtls
VARIABLES pd, auth, nf
dvars == <<l, tr, cfg, mids, pd, auth, nf>>
DInit == Init /\ pd = NoPd /\ auth = 0 /\ nf = 1
DStart == Start /\ pd' = NoPd /\ UNCHANGED <<auth, nf>>
DCfg == Cfg /\ auth' = E.auth /\ nf' = E.flights /\ pd' = NoPd

\* another endpoint's datagram ends a pending handshake
Settled(ep) == IF pd.ep \notin {-1, ep} THEN Without(tr, pd.ep) ELSE tr
ByeFor(ep, e) == e.k = "bye" /\ e.ep = ep

LapseDue(T, t) == \E e \in DOMAIN T : Lapsed(T[e], t)
Fine(t) == ~Overdue(pd, t) /\ ~Missed(tr, t) /\ ~LapseDue(tr, t)

\* what a datagram does to a pending handshake
Pending(base, p, kind, n, c) ==
    LET o == HsStep(p, kind, n, c, auth, nf)
        lost == o.reply # 0 /\ E.ev # <<>> /\ E.ev[1].fail = 1        \* the reply could not be sent
    IN /\ pd' = IF lost THEN NoPd ELSE o.pd
       /\ IF o.reply # 0 THEN Len(E.ev) = 1 /\ E.ev[1].k = "hsr" /\ E.ev[1].ep = E.ep /\ E.ev[1].d = <<22, o.reply>>
          ELSE E.ev = <<>>
       /\ tr' = IF lost \/ o.st = "gone" THEN Without(base, E.ep) ELSE base
       /\ UNCHANGED mids

NoCert == [verified |-> 0, invalid |-> 0, nosigner |-> 0, notca |-> 0, revoked |-> 0, x509 |-> 0, shown |-> 0, parses |-> 0,
           expires |-> 0, active |-> 0, unknown |-> 0, cn |-> ""]
Record ==
    LET p == Parse(E.d)
        txs == Sel("tx")
        hs == Sel("h")
        bs == Sel("brx")
        h == IF hs = <<>> THEN DefaultH ELSE hs[1]
        b == IF bs = <<>> THEN NoBrx ELSE bs[1]
        f == [i \in 1..3 |-> IF i <= Len(txs) THEN txs[i].fail = 1 ELSE FALSE]
        o == Outcome(Settled(E.ep), E.ep, E.t, p, E.d, h, b, f, [mid |-> TxMid, pl |-> TxPl], cfg)
        n == Len(o.exp)
        fresh == n > 0 /\ o.exp[n].k = "tx" /\ o.exp[n].fresh
        over == E.ep \notin DOMAIN o.tr
    IN /\ \A i \in 1..Len(txs) : Len(txs[i].d) >= 4
       /\ Len(E.ev) = n + (IF over THEN 1 ELSE 0)
       /\ \A i \in 1..n : EvOK(E.ev[i], o.exp[i], E.ep, p.m)
       /\ over => ByeFor(E.ep, E.ev[n + 1])
       /\ fresh => <<E.ep, TxMid>> \notin mids
       /\ mids' = IF fresh THEN mids \cup {<<E.ep, TxMid>>} ELSE mids
       /\ tr' = o.tr
       /\ pd' = NoPd

Kinds == {"rx", "flight", "alert", "recerr", "junk"}
DRx ==
    /\ l <= Len(Log) /\ E.k \in Kinds /\ Fine(E.t)
    /\ LET base == Settled(E.ep)
           n == IF E.k = "flight" THEN E.d[2] ELSE 0
           c == IF E.k = "flight" THEN E.cert ELSE NoCert
       IN IF pd.ep = E.ep THEN Pending(base, pd, E.k, n, c)
          ELSE IF E.ep \notin DOMAIN base
          THEN /\ Cardinality(DOMAIN base) < cfg.nt
               /\ Pending(With(base, E.ep, Rec0(E.t)), Pd(E.ep, E.t), E.k, n, c)
          ELSE IF E.k = "rx" THEN Record
          ELSE IF E.k \in {"alert", "recerr"}
          THEN /\ Len(E.ev) = 1 /\ ByeFor(E.ep, E.ev[1])
               /\ tr' = Without(base, E.ep) /\ pd' = NoPd /\ UNCHANGED mids
          ELSE E.ev = <<>> /\ tr' = base /\ pd' = NoPd /\ UNCHANGED mids
    /\ UNCHANGED <<cfg, auth, nf>>

\* the next datagram taken from the network, if any, is a newcomer's with respect to set S
RECURSIVE NextFrom(_, _)
NextFrom(i, S) == i <= Len(Log) /\ IF Log[i].k = "live" THEN NextFrom(i + 1, S) ELSE Log[i].k \in Kinds /\ Log[i].ep \notin S
\* a session is closed out of turn: to make room for a newcomer, or because its last response was never acknowledged
DBye ==
    /\ K("bye") /\ pd.ep # -2 /\ ~Overdue(pd, E.t)
    /\ LET base == IF pd.ep # -1 THEN Without(tr, pd.ep) ELSE tr
       IN \/ /\ Cardinality(DOMAIN base) = cfg.nt /\ E.ep \in Oldest(base)
             /\ NextFrom(l + 1, DOMAIN base)
             /\ tr' = Without(base, E.ep) /\ pd' = NoPd
          \/ /\ E.ep \in DOMAIN tr /\ tr[E.ep].on /\ tr[E.ep].n = MaxRetransmit /\ Deadline(tr[E.ep]) = E.t
             /\ tr' = Without(tr, E.ep) /\ UNCHANGED pd
    /\ UNCHANGED <<cfg, mids, auth, nf>>

\* the sessions that exist are those of the table
Live ==
    /\ K("live") /\ E.misuse = 0 /\ Fine(E.t)
    /\ \/ /\ E.n = Cardinality(DOMAIN tr) /\ UNCHANGED <<tr, pd>>
       \/ /\ E.n = Cardinality(DOMAIN tr) - 1 /\ pd.ep # -1 /\ (MayGiveUp(pd, E.t) \/ NextFrom(l + 1, {pd.ep}))
          /\ tr' = Without(tr, pd.ep) /\ pd' = NoPd
    /\ UNCHANGED <<cfg, mids, auth, nf>>

\* a retransmission that cannot be sent ends the session
DTmr ==
    /\ K("tmr") /\ Fine(E.t)
    /\ E.ep \in DOMAIN tr /\ CanRetransmit(tr[E.ep], E.t)
    /\ SameMsg(E.d, Tx(tr[E.ep].resp))
    /\ IF E.fail = 1
       THEN /\ l < Len(Log) /\ ByeFor(E.ep, Log[l + 1])
            /\ tr' = With(tr, E.ep, [tr[E.ep] EXCEPT !.on = TRUE, !.n = MaxRetransmit, !.T = 0, !.st = E.t])
       ELSE tr' = With(tr, E.ep, Retransmit(tr[E.ep], E.t))
    /\ UNCHANGED <<cfg, mids, pd, auth, nf>>

\* the harness takes the network away; what is left when the server is destroyed is closed as well
Stopped == [NoPd EXCEPT !.ep = -2]
DRet == /\ K("ret") /\ E.halted = 1 /\ Fine(E.t)
        /\ tr' = Settled(-1) /\ pd' = Stopped /\ UNCHANGED <<cfg, mids, auth, nf>>
DLast == /\ K("bye") /\ pd = Stopped /\ E.ep \in DOMAIN tr
         /\ tr' = Without(tr, E.ep) /\ UNCHANGED <<cfg, mids, pd, auth, nf>>
DFin == Fin /\ DOMAIN tr = {} /\ pd = Stopped /\ UNCHANGED <<pd, auth, nf>>
DEnd == End /\ UNCHANGED <<pd, auth, nf>>
DNext == l' = l + 1 /\ (DStart \/ DCfg \/ DRx \/ DBye \/ Live \/ DTmr \/ DRet \/ DFin \/ DEnd \/ DLast)
DSpec == DInit /\ [][DNext]_dvars
==============================================================================
