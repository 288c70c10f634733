------------------------------- MODULE Tls -------------------------------
(* The proxy's TLS sockets: what each operation comes to, given what the peer and the network do meanwhile.
   ev is the sequence of things met: results of handshake ("hs"), record ("rx", "tx"), close ("bye") and accept ("acc")
   attempts, and of waits ("sel"). "A" means not yet: every such answer is followed by a wait. *)
EXTENDS Dtls, FiniteSets
Intr == -1  Timeout == -2  AcceptErr == -11  ConnectErr == -12  ReadErr == -13  WriteErr == -14
HsErr == -26  Refused == -27  Warning == -28  CacheErr == -29  CertErr == -30  AddrErr == -8  ArgErr == -5
NoRenegotiation == 100
Res(ret, i) == [ret |-> ret, i |-> i]              \* the outcome and the number of the next event
Odd(i) == Res(-999, i)
Is(ev, i, o) == i <= Len(ev) /\ ev[i].o = o
\* a wait: 0 when it is worth trying again
Wait(ev, i, err) ==
    IF ~Is(ev, i, "sel") THEN Odd(i)
    ELSE Res(CASE ev[i].r = "R" -> 0 [] ev[i].r = "T" -> Timeout [] ev[i].r = "I" -> Intr [] OTHER -> err, i + 1)
RECURSIVE Handshake(_, _), Accept(_, _), Bye(_, _), Read(_, _), Write(_, _, _)
\* a server may consult its sessions on the way
Past(ev, i) == IF Is(ev, i, "retr") THEN (IF Is(ev, i + 1, "store") THEN i + 2 ELSE i + 1) ELSE i
Handshake(ev, i) ==
    IF ~Is(ev, i, "hs") THEN Odd(i)
    ELSE CASE ev[i].r = "S" -> Res(0, Past(ev, i + 1))
         [] ev[i].r = "W" -> Res(Warning, i + 1)
         [] ev[i].r = "I" -> Res(Intr, i + 1)
         [] ev[i].r = "A" -> LET w == Wait(ev, i + 1, HsErr) IN IF w.ret # 0 THEN w ELSE Handshake(ev, w.i)
         [] OTHER -> Res(HsErr, i + 1)
Accept(ev, i) ==
    IF ~Is(ev, i, "acc") THEN Odd(i)
    ELSE CASE ev[i].r = "C" -> Res(0, i + 1)
         [] ev[i].r = "I" -> Res(Intr, i + 1)
         [] ev[i].r = "A" -> LET w == Wait(ev, i + 1, AcceptErr) IN IF w.ret # 0 THEN w ELSE Accept(ev, w.i)
         [] OTHER -> Res(AcceptErr, i + 1)
\* the close alerts of both sides: 1 exchanged, 0 not
Bye(ev, i) ==
    IF ~Is(ev, i, "bye") THEN Odd(i)
    ELSE CASE ev[i].r = "S" -> Res(1, i + 1)
         [] ev[i].r = "A" -> LET w == Wait(ev, i + 1, -1) IN IF w.ret # 0 THEN Res(0, w.i) ELSE Bye(ev, w.i)
         [] OTHER -> Res(0, i + 1)
\* one read: the bytes that arrive first, 0 for the end
Read(ev, i) ==
    IF ~Is(ev, i, "rx") THEN Odd(i)
    ELSE CASE ev[i].r = "D" -> Res(ev[i].n, i + 1)
         [] ev[i].r = "0" -> Res(0, i + 1)
         [] ev[i].r = "I" -> Res(Intr, i + 1)
         [] ev[i].r = "A" -> LET w == Wait(ev, i + 1, ReadErr) IN IF w.ret # 0 THEN w ELSE Read(ev, w.i)
         [] ev[i].r = "H" -> LET h == Handshake(ev, i + 1) IN IF h.ret # 0 THEN h ELSE Read(ev, h.i)   \* data may be there already: no wait
         [] OTHER -> Res(ReadErr, i + 1)
Write(ev, i, len) ==
    IF ~Is(ev, i, "tx") THEN Odd(i)
    ELSE CASE ev[i].r = "D" -> Res(ev[i].n, i + 1)
         [] ev[i].r = "0" -> Res(0, i + 1)
         [] ev[i].r = "I" -> Res(Intr, i + 1)
         [] ev[i].r = "A" -> LET w == Wait(ev, i + 1, WriteErr) IN IF w.ret # 0 THEN w ELSE Write(ev, w.i, len)
         [] OTHER -> Res(WriteErr, i + 1)
\* reading and writing everything
RECURSIVE ReadAll(_, _, _, _), WriteAll(_, _, _, _)
ReadAll(ev, i, len, got) ==
    IF got = len THEN Res(len, i)
    ELSE LET o == Read(ev, i) IN IF o.ret <= 0 THEN o ELSE ReadAll(ev, o.i, len, got + o.ret)
WriteAll(ev, i, len, put) ==
    IF put = len THEN Res(len, i)
    ELSE LET o == Write(ev, i, len - put) IN IF o.ret <= 0 THEN o ELSE WriteAll(ev, o.i, len, put + o.ret)
\* the bytes handed over by the writes among ev
RECURSIVE Sent(_, _)
Sent(ev, i) == IF i > Len(ev) THEN <<>> ELSE IF ev[i].o = "tx" /\ ev[i].r = "D" THEN ev[i].b \o Sent(ev, i + 1) ELSE Sent(ev, i + 1)
Count(ev, o, r) == Cardinality({i \in 1..Len(ev) : ev[i].o = o /\ ev[i].r = r})
Of(ev, o) == SelectSeq(ev, LAMBDA x : x.o = o)
Without(ev, os) == SelectSeq(ev, LAMBDA x : x.o \notin os)
RehandshakeResult(server, alert, h) ==
    IF ~server THEN HsErr
    ELSE IF h = 0 \/ h = Intr THEN h
    ELSE IF h = Warning /\ alert = NoRenegotiation THEN Refused
    ELSE HsErr
------------------------------------------------------------------------------
(* A store of sessions with room for Room entries: c maps a key to [tag, n, age], age counting the new entries made since *)
Room == 50
MaxData == 2048
MaxKey == 32
Put(c, k, tag, n) ==
    IF k \in DOMAIN c /\ c[k].age < Room THEN [c EXCEPT ![k].tag = tag, ![k].n = n]
    ELSE [x \in DOMAIN c \cup {k} |-> IF x = k THEN [tag |-> tag, n |-> n, age |-> 0] ELSE [c[x] EXCEPT !.age = @ + 1]]
Del(c, k) == [x \in DOMAIN c \ {k} |-> c[x]]
Must(c, k) == k \in DOMAIN c /\ c[k].age < Room
\* what a look-up may give: the data last stored, or nothing once Room other entries have been made
Found(c, k, n, tag) == k \in DOMAIN c /\ n = c[k].n /\ tag = c[k].tag
Lookup(c, k, n, tag) == IF n = 0 THEN ~Must(c, k) ELSE Found(c, k, n, tag)
==============================================================================
