-------------------------------- MODULE Cross --------------------------------
(* The mapping between HTTP and CoAP messages, as pure operators over the message values of
   Msg, Http and Uri.  Numbers in options are decimal text, as the proxy writes them. *)
EXTENDS Msg
H == INSTANCE Http
U == INSTANCE Uri
CONSTANT MediumLen              \* longest option value and payload that can be stored

IsAt(s, i, t) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
StartsWith(s, t) == IsAt(s, 1, t)
T_GET == <<71,69,84>>
T_POST == <<80,79,83,84>>
T_PUT == <<80,85,84>>
T_DELETE == <<68,69,76,69,84,69>>
T_coap == <<99,111,97,112>>
T_coaps == <<99,111,97,112,115>>
T_etag == <<101,116,97,103>>
T_cache == <<99,97,99,104,101,45,99,111,110,116,114,111,108>>
T_accept == <<97,99,99,101,112,116>>
T_plain == <<116,101,120,116,47,112,108,97,105,110>>
T_maxage == <<109,97,120,45,97,103,101,61>>
T_HTTP11 == <<72,84,84,80,47,49,46,49>>

\* pieces between separators, empty ones left out
RECURSIVE Pieces(_, _, _)
Pieces(s, sep, acc) ==
    LET i == U!First(s, 1, {sep})
        a == U!Before(s, i)
        acc2 == IF a = <<>> THEN acc ELSE Append(acc, a)
    IN IF i = 0 THEN acc2 ELSE Pieces(U!After(s, i), sep, acc2)
Op(n, v) == [n |-> n, v |-> v]
OpsOf(n, vs) == [i \in 1..Len(vs) |-> Op(n, vs[i])]
RECURSIVE AddAll(_, _, _)
AddAll(ops, new, i) == IF i > Len(new) THEN ops ELSE AddAll(AddOp(ops, new[i]), new, i + 1)
TooLong(ops) == \E i \in 1..Len(ops) : Len(ops[i].v) > MediumLen

\* the URI of a request as options -> [ok, ops]
UriOps(s) ==
    LET p == U!UriParse(s) IN
    IF ~p.ok THEN [ok |-> FALSE]
    ELSE IF p.u.fragment # U!None \/ H!LowerS(p.u.scheme) \notin {T_coap, T_coaps} THEN [ok |-> FALSE]
    ELSE IF p.u.path # U!None /\ (p.u.path = <<>> \/ p.u.path[1] # U!Slash) THEN [ok |-> FALSE]
    ELSE LET ops == (IF p.u.host = U!None THEN <<>> ELSE <<Op(3, p.u.host)>>)
                    \o (IF p.u.port = U!None THEN <<>> ELSE <<Op(7, p.u.port)>>)
                    \o (IF p.u.path = U!None THEN <<>> ELSE OpsOf(11, Pieces(p.u.path, U!Slash, <<>>)))
                    \o (IF p.u.query = U!None THEN <<>> ELSE OpsOf(15, Pieces(p.u.query, 38, <<>>)))
         IN IF TooLong(ops) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, ops |-> ops]

\* the decimal number in front of s (white space and a plus sign skipped) as text; <<>> if there is none
RECURSIVE Digits(_, _)
Digits(s, i) == IF i <= Len(s) /\ H!IsDigit(s[i]) THEN <<s[i]>> \o Digits(s, i + 1) ELSE <<>>
RECURSIVE NoZeros(_)
NoZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN NoZeros(Tail(d)) ELSE d
Number(s) == LET i == H!SkipWs(s, 1)
                 j == IF i <= Len(s) /\ s[i] = 43 THEN i + 1 ELSE i
             IN NoZeros(Digits(s, j))
RECURSIVE Find(_, _, _)
Find(s, i, t) == IF i > Len(s) THEN 0 ELSE IF IsAt(s, i, t) THEN i ELSE Find(s, i + 1, t)

\* the option of one header -> [code: 0 or the status to answer with, ops]
HeaderOp(h) ==
    LET n == H!LowerS(h.n) IN
    CASE n = T_etag -> IF Len(h.v) > MediumLen THEN [code |-> 502] ELSE [code |-> 0, ops |-> <<Op(4, h.v)>>]
      [] n = T_cache -> LET i == Find(h.v, 1, T_maxage)
                            d == IF i = 0 THEN <<>> ELSE Number(SubSeq(h.v, i + 8, Len(h.v)))
                        IN [code |-> 0, ops |-> IF d = <<>> THEN <<>> ELSE <<Op(14, d)>>]
      [] n = T_accept -> IF StartsWith(H!LowerS(h.v), T_plain) THEN [code |-> 0, ops |-> <<Op(17, <<48>>)>>] ELSE [code |-> 406]
      [] OTHER -> [code |-> 0, ops |-> <<>>]
RECURSIVE HeaderOps(_, _, _)
HeaderOps(hs, i, acc) ==
    IF i > Len(hs) THEN [code |-> 0, ops |-> acc]
    ELSE LET o == HeaderOp(hs[i]) IN IF o.code # 0 THEN o ELSE HeaderOps(hs, i + 1, acc \o o.ops)

MaxPayload == 1024
\* the CoAP request for an HTTP request -> [code: 0 or the status to answer with, m, body (transferred blockwise)]
CrossReq(h, bodyCap) ==
    LET meth == CASE h.start[1] = T_GET -> 1 [] h.start[1] = T_POST -> 2 [] h.start[1] = T_PUT -> 3 [] h.start[1] = T_DELETE -> 4 [] OTHER -> 0
        uo == UriOps(h.start[2])
        ho == HeaderOps(h.hdrs, 1, <<>>)
        big == Len(h.body) > MaxPayload
    IN IF meth = 0 THEN [code |-> 501]
       ELSE IF ~uo.ok THEN [code |-> 400]
       ELSE IF ho.code # 0 THEN [code |-> ho.code]
       ELSE IF (big /\ Len(h.body) > bodyCap) \/ (~big /\ Len(h.body) > MediumLen) THEN [code |-> 502]
       ELSE [code |-> 0, body |-> IF big THEN h.body ELSE <<>>,
             m |-> [Msg0 EXCEPT !.det = meth, !.ops = AddAll(AddAll(<<>>, uo.ops, 1), ho.ops, 1), !.pl = IF big THEN <<>> ELSE h.body]]

------------------------------------------------------------------------------
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
\* HTTP status for a CoAP response code, 0 if there is none
Status(cls, det) ==
    CASE cls = 2 /\ det \in {1, 2, 4, 5} -> 200
      [] cls = 2 /\ det = 3 -> 304
      [] cls = 4 /\ det \in {0, 2} -> 400
      [] cls = 4 /\ det \in {1, 3, 4, 5, 6, 12, 13, 15} -> 400 + det
      [] cls = 5 /\ det \in {0, 1, 2, 3, 4} -> 500 + det
      [] cls = 5 /\ det = 5 -> 501
      [] OTHER -> 0
N_Etag == <<69,116,97,103>>
N_Cache == <<67,97,99,104,101,45,67,111,110,116,114,111,108>>
N_Accept == <<65,99,99,101,112,116>>
N_CL == <<67,111,110,116,101,110,116,45,76,101,110,103,116,104>>
Hdr(n, v) == [n |-> n, v |-> v]
IsCtl(c) == c < 32 \/ c = 127
OpHeader(o) ==
    CASE o.n = 4 /\ ~(\E i \in 1..Len(o.v) : IsCtl(o.v[i])) -> <<Hdr(N_Etag, o.v)>>
      [] o.n = 14 -> LET d == Number(CutNul(o.v)) IN IF d = <<>> THEN <<>> ELSE <<Hdr(N_Cache, T_maxage \o d)>>
      [] o.n = 17 /\ o.v = <<48>> -> <<Hdr(N_Accept, T_plain)>>
      [] OTHER -> <<>>
RECURSIVE OpHeaders(_, _)
OpHeaders(ops, i) == IF i > Len(ops) THEN <<>> ELSE OpHeader(ops[i]) \o OpHeaders(ops, i + 1)
\* the HTTP response for a CoAP response -> [status, hdrs, body]; errors have no headers but the length
ErrResp(code) == [status |-> code, hdrs |-> <<Hdr(N_CL, <<48>>)>>, body |-> <<>>]
CrossResp(m, body) ==
    LET st == Status(m.cls, m.det)
        b == IF body # <<>> THEN body ELSE m.pl
    IN IF st = 0 \/ \E i \in 1..Len(m.ops) : Len(m.ops[i].v) >= 256 THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, status |-> st, hdrs |-> OpHeaders(m.ops, 1) \o <<Hdr(N_CL, Dec(Len(b)))>>, body |-> b]

------------------------------------------------------------------------------
\* the URI of a CoAP request
RECURSIVE JoinVals(_, _, _)
JoinVals(os, i, acc) == IF i > Len(os) THEN acc ELSE JoinVals(os, i + 1, IF acc = <<>> THEN os[i].v ELSE acc \o <<38>> \o os[i].v)
RECURSIVE PathRoom(_, _, _)
PathRoom(os, i, n) == i > Len(os) \/ (Len(os[i].v) + 1 <= 255 - n /\ PathRoom(os, i + 1, n + 1 + Len(os[i].v)))
RECURSIVE QueryRoom(_, _, _)
QueryRoom(os, i, n) == i > Len(os) \/ (Len(os[i].v) + 1 <= 255 - n /\ QueryRoom(os, i + 1, n + Len(os[i].v) + (IF n > 0 THEN 1 ELSE 0)))
UriOfOps(m) ==
    LET h == OpsNumbered(m, 3)
        p == OpsNumbered(m, 7)
        q == JoinVals(OpsNumbered(m, 15), 1, <<>>)
    IN IF (h # <<>> /\ Len(h[1].v) >= 256) \/ (p # <<>> /\ Len(p[1].v) >= 256) \/ ~PathRoom(OpsNumbered(m, 11), 1, 0) \/ ~QueryRoom(OpsNumbered(m, 15), 1, 0)
       THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, u |-> [U!Uri0 EXCEPT !.scheme = T_coaps, !.host = IF h = <<>> THEN U!None ELSE CutNul(h[1].v), !.port = IF p = <<>> THEN U!None ELSE CutNul(p[1].v),
                                 !.path = CutNul(PathBytes(m)), !.query = IF q = <<>> THEN U!None ELSE CutNul(q)]]
==============================================================================
