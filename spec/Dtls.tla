------------------------------- MODULE Dtls -------------------------------
(* Datagram TLS as the library uses it: when a peer is accepted, and the life of the server's sessions. *)
EXTENDS Integers, Sequences

\* a certificate is accepted only if everything about it is in order; expires and active are relative to now.
\* name: <<>> for any, otherwise the required owner
CertOk(c, name) ==
    /\ c.verified = 1
    /\ c.invalid = 0 /\ c.nosigner = 0 /\ c.notca = 0 /\ c.revoked = 0
    /\ c.x509 = 1 /\ c.shown = 1 /\ c.parses = 1
    /\ c.unknown = 0 /\ c.expires >= 0 /\ c.active <= 0
    /\ (name = <<>> \/ name = <<c.cn>>)

\* what a client's handshake comes to, given what its attempts meet: "A" nothing yet, "S" success, others fail
MaxAttempts == 60
RECURSIVE HsResult(_, _)
HsResult(hs, n) ==
    IF n > MaxAttempts THEN "T"
    ELSE IF n > Len(hs) THEN "T"
    ELSE IF hs[n] = "A" THEN HsResult(hs, n + 1)
    ELSE hs[n]

------------------------------------------------------------------------------
\* The server admits one handshake at a time.  A pending handshake: [ep, k (flight awaited), t0, att].
NoPd == [ep |-> -1, k |-> 0, t0 |-> 0, att |-> 0]
Pd(ep, t) == [ep |-> ep, k |-> 1, t0 |-> t, att |-> 0]
HsTimeout == 60000
HsSlack == 1100
\* given up no later than after the timeout; every datagram met is an attempt
Overdue(pd, t) == pd.ep # -1 /\ t - pd.t0 > HsTimeout + HsSlack
MayGiveUp(pd, t) == pd.ep # -1 /\ t - pd.t0 + 1000 * (pd.att + 1) >= HsTimeout - HsSlack
\* a datagram kind k (flight number n, certificate c) for a pending handshake -> [st, pd, reply]
HsStep(pd, k, n, c, auth, flights) ==
    IF k = "alert" THEN [st |-> "gone", pd |-> NoPd, reply |-> 0]
    ELSE IF k = "flight" /\ n = pd.k
    THEN IF n < flights THEN [st |-> "pending", pd |-> [pd EXCEPT !.k = @ + 1, !.att = @ + 1], reply |-> n]
         ELSE IF auth = 1 /\ ~CertOk(c, <<>>) THEN [st |-> "gone", pd |-> NoPd, reply |-> n]
         ELSE [st |-> "open", pd |-> NoPd, reply |-> n]
    ELSE [st |-> "pending", pd |-> [pd EXCEPT !.att = @ + 1], reply |-> 0]
==============================================================================
