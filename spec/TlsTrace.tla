------------------------------ MODULE TlsTrace ------------------------------
EXTENDS Tls, TraceBase
VARIABLES l, base, so, ss, cc, sc, rp, auth
vars == <<l, base, so, ss, cc, sc, rp, auth>>
Slots == 0..3
Free == [up |-> FALSE, server |-> FALSE, a |-> "", timeout |-> 0]
Nobody == [up |-> FALSE, timeout |-> 0]
Empty == [x \in {} |-> 0]
E == Log[l]
K(k) == l <= Len(Log) /\ E.k = k
Init == l = 1 /\ base = <<0, 0, 0, 0>> /\ so = [q \in Slots |-> Free] /\ ss = Nobody /\ cc = Empty /\ sc = Empty /\ rp = 0 /\ auth = 0
Ups(s) == Cardinality({q \in Slots : s[q].up})
\* nothing is held but what the open sockets need
Held == /\ E.misuse = 0 /\ E.live = base /\ E.crts = 0 /\ E.bufs = 0 /\ E.ai = 0
        /\ E.sess = Ups(so') /\ E.fds = Ups(so') + (IF ss'.up THEN 1 ELSE 0)
Bare == E.sess = 0 /\ E.crts = 0 /\ E.bufs = 0 /\ E.ai = 0 /\ E.fds = 0 /\ E.misuse = 0
Same == UNCHANGED <<base, so, ss, cc, sc, rp, auth>>
Ev == E.ev
Failed == Of(Ev, "fail") # <<>>
Net == Without(Ev, {"fail", "res", "con", "bind"})
----
\* set-up
Up == K("up") /\ Bare /\ base' = E.live /\ auth' = E.auth /\ UNCHANGED <<so, ss, cc, sc, rp>>
Down == K("down") /\ E.misuse = 0 /\ E.live = <<0, 0, 0, 0>> /\ E.crts = 0 /\ E.bufs = 0 /\ base' = <<0, 0, 0, 0>> /\ UNCHANGED <<so, ss, cc, sc, rp, auth>>
Base == K("base") /\ Bare /\ base' = E.live /\ UNCHANGED <<so, ss, cc, sc, rp, auth>>
Make == /\ K("make") /\ Bare
        /\ (E.ret = 0) <=> ~Failed
        /\ E.ret <= 0
        /\ E.ret = 0 => E.loaded = E.want
        /\ E.ret < 0 => E.live = base
        /\ Same
Gone == K("gone") /\ Bare /\ E.live = base /\ Same
Off == K("off") /\ Bare /\ E.live = <<0, 0, 0, 0>> /\ base' = <<0, 0, 0, 0>> /\ UNCHANGED <<so, ss, cc, sc, rp, auth>>
----
Listen == /\ K("listen") /\ ~ss.up
          /\ E.ret = 0 <=> ~Failed /\ E.timeout >= 0
          /\ E.ret <= 0
          /\ E.ret = 0 => Of(Ev, "bind") = <<[o |-> "bind", port |-> 8443]>>
          /\ ss' = IF E.ret = 0 THEN [up |-> TRUE, timeout |-> E.timeout] ELSE ss
          /\ UNCHANGED <<base, so, cc, sc, rp, auth>> /\ Held
Unlisten == K("unlisten") /\ ss.up /\ ss' = Nobody /\ UNCHANGED <<base, so, cc, sc, rp, auth>> /\ Held
----
\* opening: E.host and the addresses after it are tried in turn
Attempts == Of(Ev, "con")
Reached == Len(Attempts) > 0 /\ Attempts[Len(Attempts)].r = "S"
OpenRet ==
    IF E.timeout < 0 THEN ArgErr
    ELSE IF E.naddr = 0 THEN AddrErr
    ELSE IF ~Reached THEN ConnectErr
    ELSE LET h == Handshake(Net, 1)
         IN IF h.ret # 0 THEN h.ret ELSE IF ~CertOk(E.cert, E.name) THEN CertErr ELSE 0
\* what is left of the events after the outcome: only a farewell
Farewell(ev, i) == i = Len(ev) + 1 \/ (i = Len(ev) /\ ev[i].o = "bye")
Open ==
    /\ K("open") /\ ~so[E.q].up
    /\ IF Failed THEN E.ret < 0 ELSE E.ret = OpenRet
    /\ \A i \in 1..Len(Attempts) : i < Len(Attempts) => Attempts[i].r # "S"
    /\ \A i, j \in 1..Len(Attempts) : i # j => Attempts[i].a # Attempts[j].a
    /\ ~Failed /\ ~Reached /\ E.timeout >= 0 => Len(Attempts) = E.naddr
    /\ Len(Attempts) > 0 => Attempts[1].a = E.host
    /\ ~Failed /\ Reached => LET h == Handshake(Net, 1) IN Farewell(Net, h.i) /\ (h.ret = 0 /\ E.ret = 0 => h.i = Len(Net) + 1)
    /\ E.dt <= 1000 * E.timeout \/ E.timeout < 0
    /\ Count(Net, "sel", "T") > 0 => E.dt = 1000 * E.timeout
    \* the session left by the last orderly close is offered again
    /\ LET r == Of(Ev, "res") IN
       IF r = <<>> THEN (IF Failed \/ ~Reached THEN TRUE ELSE ~Must(cc, Attempts[Len(Attempts)].a))
       ELSE IF ~Reached THEN FALSE ELSE Len(r) = 1 /\ Found(cc, Attempts[Len(Attempts)].a, r[1].n, r[1].tag)
    /\ so' = IF E.ret = 0 THEN [so EXCEPT ![E.q] = [up |-> TRUE, server |-> FALSE, a |-> Attempts[Len(Attempts)].a, timeout |-> E.timeout]] ELSE so
    /\ E.ret = 0 => E.peer = Attempts[Len(Attempts)].a
    /\ UNCHANGED <<base, ss, cc, sc, rp, auth>> /\ Held
Key == ToString(E.kid) \o "/32"
\* the server's use of its sessions during handshakes
DbOk(ev) ==
    LET g == Of(ev, "retr") p == Of(ev, "store") IN
    /\ Len(g) <= 1 /\ Len(p) <= 1
    /\ Len(g) = 1 => Lookup(sc, Key, g[1].n, g[1].tag)
    /\ Len(p) = 1 => p[1].ret = 0
DbPut(ev) == LET p == Of(ev, "store") IN IF p = <<>> THEN sc ELSE Put(sc, Key, p[1].tag, p[1].n)
AcceptRet ==
    LET a == Accept(Net, 1) IN
    IF a.ret # 0 THEN a
    ELSE LET h == Handshake(Net, a.i)
         IN IF h.ret # 0 THEN h ELSE Res(IF auth = 1 /\ ~CertOk(E.cert, <<>>) THEN CertErr ELSE 0, h.i)
AcceptOp ==
    /\ K("accept") /\ ~so[E.q].up /\ ss.up
    /\ IF Failed THEN E.ret < 0 ELSE E.ret = AcceptRet.ret /\ Farewell(Net, AcceptRet.i) /\ (E.ret = 0 => AcceptRet.i = Len(Net) + 1)
    /\ E.dt <= 2000 * ss.timeout
    /\ Accept(Net, 1).ret # 0 => E.dt <= 1000 * ss.timeout
    /\ E.ret = Timeout => E.dt >= 1000 * ss.timeout
    /\ DbOk(Ev) /\ sc' = DbPut(Ev)
    /\ so' = IF E.ret = 0 THEN [so EXCEPT ![E.q] = [up |-> TRUE, server |-> TRUE, a |-> "10.9.8.7", timeout |-> ss.timeout]] ELSE so
    /\ E.ret = 0 => E.peer = "10.9.8.7"
    /\ UNCHANGED <<base, ss, cc, rp, auth>> /\ Held
----
Timed(o) == /\ E.dt <= 1000 * so[E.q].timeout * o
            /\ E.ret = Timeout => E.dt >= 1000 * so[E.q].timeout
RECURSIVE Total(_, _)
Total(ev, i) == IF i > Len(ev) THEN 0 ELSE (IF ev[i].o = "rx" /\ ev[i].r = "D" THEN ev[i].n ELSE 0) + Total(ev, i + 1)
ReadOp ==
    /\ K("read") /\ so[E.q].up
    /\ LET o == IF E.full = 1 THEN ReadAll(Net, 1, E.len, 0) ELSE Read(Net, 1)
           parts == Cardinality({i \in 1..Len(Net) : Net[i].o = "rx" /\ Net[i].r \in {"D", "H"}}) + 1
       IN /\ E.ret = o.ret /\ o.i = Len(Net) + 1
          /\ Timed(parts)
          /\ E.ret > 0 => /\ Len(E.data) = E.ret
                          /\ \A j \in 1..Len(E.data) : E.data[j] = (rp + j - 1) % 251
          /\ rp' = rp + Total(Net, 1)
    /\ UNCHANGED <<base, so, ss, cc, sc, auth>> /\ Held
WriteOp ==
    /\ K("write") /\ so[E.q].up
    /\ LET o == IF E.full = 1 THEN WriteAll(Net, 1, E.len, 0) ELSE Write(Net, 1, E.len)
           sent == Sent(Net, 1)
       IN /\ E.ret = o.ret /\ o.i = Len(Net) + 1
          /\ Timed(Count(Net, "tx", "D") + 1)
          /\ Len(sent) <= E.len /\ sent = SubSeq(E.data, 1, Len(sent))
          /\ E.ret > 0 => Len(sent) = E.ret
    /\ Same /\ Held
Rehs ==
    /\ K("rehs") /\ so[E.q].up
    /\ LET h == Handshake(Net, 1) IN
       IF Failed \/ ~so[E.q].server THEN E.ret = HsErr /\ Of(Ev, "hs") = <<>>
       ELSE E.ret = RehandshakeResult(TRUE, E.alert, h.ret) /\ h.i = Len(Net) + 1
    /\ E.dt <= 1000 * so[E.q].timeout
    /\ Same /\ Held
Close ==
    /\ K("close") /\ so[E.q].up
    /\ LET b == Bye(Net, 1) IN
       /\ b.ret \in {0, 1} /\ b.i = Len(Net) + 1
       /\ cc' = IF b.ret = 1 /\ ~so[E.q].server /\ E.n > 0 /\ E.n <= MaxData THEN Put(cc, so[E.q].a, E.tag, E.n) ELSE cc
    /\ E.dt <= 1000 * so[E.q].timeout + 1000
    /\ Count(Net, "sel", "T") > 0 => E.dt >= 1000 * so[E.q].timeout
    /\ so' = [so EXCEPT ![E.q] = Free]
    /\ UNCHANGED <<base, ss, sc, rp, auth>> /\ Held
----
CSet == /\ K("cset") /\ E.ret = (IF E.n > MaxData THEN CacheErr ELSE 0)
        /\ cc' = IF E.ret = 0 THEN Put(cc, E.a, E.tag, E.n) ELSE cc
        /\ UNCHANGED <<base, so, ss, sc, rp, auth>> /\ Held
CGet == K("cget") /\ Lookup(cc, E.a, E.n, E.tag) /\ Same /\ Held
SSet == /\ K("sset") /\ E.ret = (IF E.n > MaxData \/ E.kl > MaxKey THEN CacheErr ELSE 0)
        /\ sc' = IF E.ret = 0 THEN Put(sc, E.a, E.tag, E.n) ELSE sc
        /\ UNCHANGED <<base, so, ss, cc, rp, auth>> /\ Held
SGet == K("sget") /\ Lookup(sc, E.a, E.n, E.tag) /\ Same /\ Held
SDel == /\ K("sdel")
        /\ (Must(sc, E.a) => E.ret = 0) /\ (E.a \notin DOMAIN sc => E.ret < 0)
        /\ sc' = Del(sc, E.a) /\ UNCHANGED <<base, so, ss, cc, rp, auth>> /\ Held
Race == K("race") /\ E.torn = 0 /\ Same /\ Held
Mark == \/ K("end") /\ Same
        \/ K("start") /\ base' = <<0, 0, 0, 0>> /\ so' = [q \in Slots |-> Free] /\ ss' = Nobody /\ cc' = Empty /\ sc' = Empty /\ rp' = 0 /\ auth' = 0
Next == l' = l + 1 /\ (Up \/ Down \/ Base \/ Make \/ Gone \/ Off \/ Listen \/ Unlisten \/ Open \/ AcceptOp \/ ReadOp \/ WriteOp \/ Rehs \/ Close
                       \/ CSet \/ CGet \/ SSet \/ SGet \/ SDel \/ Race \/ Mark)
Spec == Init /\ [][Next]_vars
Accepted == MatchedAll
==============================================================================
