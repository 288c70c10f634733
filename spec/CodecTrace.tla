----------------------------- MODULE CodecTrace -----------------------------
(* Conformance of recorded codec runs with Msg.  A behaviour of this specification is a
   history of calls on one message object (obj) interleaved with datagram decodings; the
   trace is accepted iff every recorded result is the one the specification allows. *)
EXTENDS Msg, TraceBase

VARIABLES l, obj, small, medium
vars == <<l, obj, small, medium>>

E == Log[l]
K(k) == l <= Len(Log) /\ E.k = k

NoObj == Msg0
B(x) == IF x THEN 1 ELSE 0
Fld(e) == [type |-> e.type, cls |-> e.cls, det |-> e.det, mid |-> e.mid, tok |-> e.tok, ops |-> e.ops, pl |-> e.pl]
CFld(e) == [type |-> e.ctype, cls |-> e.ccls, det |-> e.cdet, mid |-> e.cmid, tok |-> e.ctok, ops |-> e.cops, pl |-> e.cpl]

Init == l = 1 /\ obj = NoObj /\ small = 0 /\ medium = 0

\* The derived views of a message: bad-option checks, block options, path text, copy.
BlkOK(r, m, n) ==
    LET b == BlockOf(m, n)
    IN IF ~b.has THEN r.ret = 1
       ELSE IF ~b.ok THEN r.ret = -1
       ELSE r.ret = 0 /\ r.num = b.num /\ r.more = b.more /\ r.size = b.size
PathOK(r, m) ==
    LET p == PathBytes(m)
        n == Min(Len(p), r.cap - 1)
        none == ~HasOp(m, OPT_URI_PATH)
    IN /\ (none /\ r.cap = 1) \/ r.ret = Len(p)
       /\ SubSeq(r.b, 1, n) = SubSeq(p, 1, n)
       /\ \A i \in (n + 1)..r.cap : r.b[i] = 0
Pl(m) == IF m.pl = <<>> THEN 0 ELSE 1
ViewsOK(e, m) ==
    /\ e.crit = BadCritical(m)
    /\ e.unsafe = BadUnsafe(m)
    /\ BlkOK(e.b1, m, OPT_BLOCK1)
    /\ BlkOK(e.b2, m, OPT_BLOCK2)
    /\ \A i \in 1..Len(e.paths) : PathOK(e.paths[i], m)
    /\ LET room == 2 * Len(m.ops) <= small /\ 2 * (Len(m.ops) + Pl(m)) <= medium
       IN /\ e.cpok = B(room)
          /\ room => CFld(e) = m /\ e.cver = 1

FmtOK(e, m) ==
    LET f == Format(m)
        can == MsgCheck(m) /\ Len(f) <= e.fcap
    IN IF can THEN e.fok = 1 /\ e.f = f ELSE e.fok = 0

Start == K("start") /\ obj' = NoObj /\ UNCHANGED <<small, medium>>
End == K("end") /\ UNCHANGED <<obj, small, medium>>
Pools == K("pools") /\ small' = E.small /\ medium' = E.medium /\ UNCHANGED obj

DoParse ==
    /\ K("parse")
    /\ LET p == Parse(E.d)
           fits == /\ \A i \in 1..Len(p.m.ops) : Len(p.m.ops[i].v) <= E.lim
                   /\ Len(p.m.pl) <= E.lim
                   /\ Len(p.m.ops) <= small
                   /\ Len(p.m.ops) + Pl(p.m) <= medium
       IN /\ E.ok = B(p.ok /\ fits)
          /\ E.hok = B(Len(E.d) >= 4)
          /\ Len(E.d) >= 4 => E.hty = HdrType(E.d) /\ E.hid = HdrMid(E.d)
          /\ E.ok = 1 => /\ E.ver = 1
                         /\ Fld(E) = p.m
                         /\ FmtOK(E, p.m)
                         /\ Parse(E.f) = p        \* round trip
                         /\ ViewsOK(E, p.m)
          /\ E.us = 0 /\ E.um = 0                 \* every buffer came back
    /\ UNCHANGED <<obj, small, medium>>

New == K("new") /\ obj' = NoObj
SetType == K("type") /\ E.ok = B(E.a \in 0..3) /\ obj' = IF E.ok = 1 THEN [obj EXCEPT !.type = E.a] ELSE obj
SetCode == K("code") /\ E.ok = B(E.a \in 0..7 /\ E.b \in 0..31)
           /\ obj' = IF E.ok = 1 THEN [obj EXCEPT !.cls = E.a, !.det = E.b] ELSE obj
SetMid == K("mid") /\ E.ok = B(E.a \in 0..65535) /\ obj' = IF E.ok = 1 THEN [obj EXCEPT !.mid = E.a] ELSE obj
SetToken == K("token") /\ E.ok = B(Len(E.v) <= 8) /\ obj' = IF E.ok = 1 THEN [obj EXCEPT !.tok = E.v] ELSE obj
AddOption ==
    /\ K("op")
    /\ E.ok = B(Len(E.v) <= E.lim /\ Len(obj.ops) < small /\ Len(obj.ops) + Pl(obj) < medium)
    /\ obj' = IF E.ok = 1 THEN [obj EXCEPT !.ops = AddOp(obj.ops, [n |-> E.a, v |-> E.v])] ELSE obj
SetPayload ==
    /\ K("pay")
    /\ E.ok = B(Len(E.v) <= E.lim /\ (E.v = <<>> \/ Len(obj.ops) < medium))
    /\ obj' = IF E.ok = 1 THEN [obj EXCEPT !.pl = E.v] ELSE [obj EXCEPT !.pl = <<>>]
ClearPayload == K("clrpay") /\ obj' = [obj EXCEPT !.pl = <<>>]
DoFormat ==
    /\ K("fmt")
    /\ Fld(E) = obj /\ E.ver = 1 /\ Sorted(obj.ops)
    /\ FmtOK(E, obj)
    /\ E.fok = 1 /\ obj.cls \in {0, 2, 4, 5} => Parse(E.f) = [ok |-> TRUE, err |-> "", m |-> obj]
    /\ ViewsOK(E, obj)
    /\ UNCHANGED obj
Drop == K("drop") /\ E.us = 0 /\ E.um = 0 /\ obj' = NoObj

BFmt ==
    /\ K("bfmt")
    /\ IF BlockFits(E.len, E.num, E.size)
       THEN E.ret = E.len /\ E.v = BlockBytes(E.len, E.num, E.more, E.size)
            /\ BlockVal(E.v) = [ok |-> TRUE, num |-> E.num, more |-> B(E.more # 0), size |-> E.size]
       ELSE E.ret = -1
    /\ UNCHANGED obj
BParse ==
    /\ K("bparse")
    /\ LET b == BlockVal(E.v)
       IN IF b.ok THEN E.ret = 0 /\ E.num = b.num /\ E.more = b.more /\ E.size = b.size
          ELSE E.ret = -1
    /\ UNCHANGED obj
Szx == K("szx") /\ E.ret = (IF E.a \in Sizes THEN SzxOf(E.a) ELSE -1) /\ UNCHANGED obj
Recog == K("recog") /\ E.ret = B(E.a \in Recognized) /\ UNCHANGED obj

Next ==
    /\ l' = l + 1
    /\ \/ Start \/ End \/ Pools \/ DoParse
       \/ /\ UNCHANGED <<small, medium>>
          /\ \/ New \/ SetType \/ SetCode \/ SetMid \/ SetToken \/ AddOption \/ SetPayload
             \/ ClearPayload \/ DoFormat \/ Drop \/ BFmt \/ BParse \/ Szx \/ Recog

Spec == Init /\ [][Next]_vars
Accepted == MatchedAll
==============================================================================
