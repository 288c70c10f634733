------------------------------ MODULE DtlsTrace ------------------------------
(* Creating and destroying clients and servers of the DTLS build: a client exists only if its peer is who it should be,
   whatever goes wrong leaves nothing behind, and the credentials given are the ones used. *)
EXTENDS Dtls, TraceBase
VARIABLES l, up
vars == <<l, up>>
E == Log[l]
K(k) == l <= Len(Log) /\ E.k = k
Init == l = 1 /\ up = FALSE
Nothing == E.live = <<0, 0, 0, 0, 0, 0>> /\ E.fds = 0
Loaded(k) == SelectSeq(E.loaded, LAMBDA x : x.k = k)
Given(k, f) == IF f = <<>> THEN Loaded(k) = <<>> ELSE Loaded(k) = <<[k |-> k, f |-> f[1]]>>
Attempts(n) == n <= MaxAttempts
Good == /\ E.failed = 0
        /\ E.client = 1 => HsResult(E.hs, 1) = "S" /\ CertOk(E.cert, E.name)
Create ==
    /\ K("create") /\ ~up /\ E.misuse = 0 /\ E.byes = 0
    /\ (E.ret = 0) <=> Good
    /\ E.ret <= 0
    /\ E.dt <= HsTimeout + HsSlack
    /\ E.ret = 0 => /\ Given("key", E.key) /\ Given("cert", E.crt) /\ Given("trust", E.trust) /\ Given("crl", E.crl)
                    /\ E.live[6] = 0
    /\ E.ret < 0 => Nothing
    /\ up' = (E.ret = 0)
    \* an attempt is only made while the ones before came to nothing, and a reset or a silent peer is reported as such
    /\ \A i \in 1..(Len(E.hs) - 1) : E.hs[i] = "A"
    /\ (E.client = 1 /\ E.failed = 0 /\ HsResult(E.hs, 1) = "T") => E.ret = -110
    /\ (E.client = 1 /\ E.failed = 0 /\ HsResult(E.hs, 1) \in {"F", "W"}) => E.ret = -104
Destroy == K("destroy") /\ up /\ E.misuse = 0 /\ Nothing /\ E.byes = E.client /\ up' = FALSE
Mark == (K("start") \/ K("end")) /\ ~up /\ UNCHANGED up
Next == l' = l + 1 /\ (Create \/ Destroy \/ Mark)
Spec == Init /\ [][Next]_vars
Accepted == MatchedAll
==============================================================================
