-------------------------------- MODULE Msg --------------------------------
(* CoAP message codec (RFC 7252 section 3, RFC 7959 section 2.2) as pure operators:
   what every datagram means, and which bytes every message is.  All other
   specifications use these operators, so that the bytes that the real code reads
   and writes are interpreted by the specification and never by the code. *)
EXTENDS Integers, Sequences, FiniteSets

CON == 0
NON == 1
ACK == 2
RST == 3

OPT_URI_PATH == 11
OPT_BLOCK2 == 23
OPT_BLOCK1 == 27

Recognized == {1, 3, 4, 5, 7, 8, 11, 12, 14, 15, 17, 20, 23, 27, 28, 35, 39, 60}
Critical(n) == n % 2 = 1
Unsafe(n)   == (n \div 2) % 2 = 1

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* A message: [type, cls, det, mid, tok, ops, pl]; an option: [n, v].
Msg0 == [type |-> CON, cls |-> 0, det |-> 0, mid |-> 0, tok |-> <<>>, ops |-> <<>>, pl |-> <<>>]

IsEmptyCode(m) == m.cls = 0 /\ m.det = 0
IsRequest(m)   == m.cls = 0 /\ m.det # 0

\* The consistency rules between type, code and content.
MsgCheck(m) ==
    IF IsEmptyCode(m)
    THEN m.type # NON /\ m.tok = <<>> /\ m.ops = <<>> /\ m.pl = <<>>
    ELSE m.type # RST

Bad(e) == [ok |-> FALSE, err |-> e, m |-> Msg0]

\* One option starting at index i (1-based) of b, given the previous option number.
\* -> [ok, n, v, next]
ParseOp(b, i, prev) ==
    LET N   == Len(b)
        d0  == b[i] \div 16
        l0  == b[i] % 16
        dx  == IF d0 = 13 THEN 1 ELSE IF d0 = 14 THEN 2 ELSE 0
        lx  == IF l0 = 13 THEN 1 ELSE IF l0 = 14 THEN 2 ELSE 0
        no  == [ok |-> FALSE, n |-> 0, v |-> <<>>, next |-> 0]
    IN IF d0 = 15 \/ l0 = 15 THEN no
       ELSE IF i + dx + lx > N THEN no
       ELSE LET delta == IF dx = 0 THEN d0
                         ELSE IF dx = 1 THEN 13 + b[i+1]
                         ELSE 269 + b[i+1] * 256 + b[i+2]
                j     == i + dx
                len   == IF lx = 0 THEN l0
                         ELSE IF lx = 1 THEN 13 + b[j+1]
                         ELSE 269 + b[j+1] * 256 + b[j+2]
                k     == j + lx
            IN IF k + len > N THEN no
               ELSE [ok |-> TRUE, n |-> prev + delta, v |-> SubSeq(b, k + 1, k + len), next |-> k + len + 1]

RECURSIVE ParseOps(_, _, _, _)
ParseOps(b, i, prev, acc) ==
    IF i > Len(b) THEN [ok |-> TRUE, ops |-> acc, next |-> i]
    ELSE IF b[i] = 255 THEN [ok |-> TRUE, ops |-> acc, next |-> i]
    ELSE LET o == ParseOp(b, i, prev)
         IN IF ~o.ok THEN [ok |-> FALSE, ops |-> <<>>, next |-> 0]
            ELSE ParseOps(b, o.next, o.n, Append(acc, [n |-> o.n, v |-> o.v]))

\* The meaning of a datagram.  err is "short" (no header), "ver" (other protocol version)
\* or "bad" (format error).
Parse(b) ==
    IF Len(b) < 4 THEN Bad("short")
    ELSE IF b[1] \div 64 # 1 THEN Bad("ver")
    ELSE LET tkl == b[1] % 16
             cls == b[2] \div 32
         IN IF tkl > 8 \/ cls \notin {0, 2, 4, 5} \/ Len(b) < 4 + tkl THEN Bad("bad")
            ELSE LET os == ParseOps(b, 5 + tkl, 0, <<>>)
                 IN IF ~os.ok \/ os.next = Len(b) THEN Bad("bad")   \* marker without payload
                    ELSE LET m == [type |-> (b[1] \div 16) % 4,
                                   cls  |-> cls,
                                   det  |-> b[2] % 32,
                                   mid  |-> b[3] * 256 + b[4],
                                   tok  |-> SubSeq(b, 5, 4 + tkl),
                                   ops  |-> os.ops,
                                   pl   |-> SubSeq(b, os.next + 1, Len(b))]
                         IN IF MsgCheck(m) THEN [ok |-> TRUE, err |-> "", m |-> m] ELSE Bad("bad")

\* The type and message id of a datagram that has at least a header.
HdrType(b) == (b[1] \div 16) % 4
HdrMid(b)  == b[3] * 256 + b[4]

Nib(x) == IF x >= 269 THEN 14 ELSE IF x >= 13 THEN 13 ELSE x
Ext(x) == IF x >= 269 THEN <<(x - 269) \div 256, (x - 269) % 256>>
          ELSE IF x >= 13 THEN <<x - 13>> ELSE <<>>

RECURSIVE FormatOps(_, _, _, _)
FormatOps(ops, k, prev, acc) ==
    IF k > Len(ops) THEN acc
    ELSE LET d == ops[k].n - prev
             l == Len(ops[k].v)
         IN FormatOps(ops, k + 1, ops[k].n,
                      acc \o <<Nib(d) * 16 + Nib(l)>> \o Ext(d) \o Ext(l) \o ops[k].v)

\* The one encoding of a message.
Format(m) ==
    <<64 + m.type * 16 + Len(m.tok), m.cls * 32 + m.det, m.mid \div 256, m.mid % 256>>
    \o m.tok
    \o FormatOps(m.ops, 1, 0, <<>>)
    \o (IF m.pl = <<>> THEN <<>> ELSE <<255>> \o m.pl)

\* Insertion of an option: ascending by number, after those with an equal number.
AddOp(ops, o) ==
    LET k == Cardinality({i \in 1..Len(ops) : ops[i].n <= o.n})
    IN SubSeq(ops, 1, k) \o <<o>> \o SubSeq(ops, k + 1, Len(ops))

Sorted(ops) == \A i \in 1..(Len(ops) - 1) : ops[i].n <= ops[i+1].n

OpsNumbered(m, n) == SelectSeq(m.ops, LAMBDA o : o.n = n)
HasOp(m, n) == \E i \in 1..Len(m.ops) : m.ops[i].n = n

\* First option that must be understood and is not: 0 when there is none.
FirstBad(ops, bad(_)) ==
    LET S == {i \in 1..Len(ops) : bad(ops[i].n) /\ ops[i].n \notin Recognized}
    IN IF S = {} THEN 0 ELSE ops[CHOOSE i \in S : \A j \in S : i <= j].n
BadCritical(m) == FirstBad(m.ops, Critical)
BadUnsafe(m)   == FirstBad(m.ops, Unsafe)

RECURSIVE Concat(_, _, _)
Concat(ops, k, acc) == IF k > Len(ops) THEN acc ELSE Concat(ops, k + 1, acc \o <<47>> \o ops[k].v)
\* The path as text: "/" separated; "/" when there is no path option.
PathBytes(m) ==
    LET p == OpsNumbered(m, OPT_URI_PATH)
    IN IF p = <<>> THEN <<47>> ELSE Concat(p, 1, <<>>)

\* What a C program sees of a byte sequence stored in a buffer of cap bytes.
CutNul(b) ==
    LET Z == {i \in 1..Len(b) : b[i] = 0}
    IN IF Z = {} THEN b ELSE SubSeq(b, 1, (CHOOSE i \in Z : \A j \in Z : i <= j) - 1)
CStr(b, cap) == CutNul(SubSeq(b, 1, Min(Len(b), cap - 1)))

------------------------------------------------------------------------------
\* Block options: num (20 bits), more, size 16..1024.
Pow2(n) == 2 ^ n
SizeOf(szx) == Pow2(szx + 4)
Sizes == {SizeOf(s) : s \in 0..6}
SzxOf(size) == CHOOSE s \in 0..6 : SizeOf(s) = size

\* Value of a block option: an unsigned integer in at most 3 bytes.
BlockUInt(v) == IF Len(v) = 0 THEN 0
                ELSE IF Len(v) = 1 THEN v[1]
                ELSE IF Len(v) = 2 THEN v[1] * 256 + v[2]
                ELSE v[1] * 65536 + v[2] * 256 + v[3]
BlockVal(v) ==
    LET u == BlockUInt(v)
    IN IF Len(v) > 3 \/ u % 8 = 7 THEN [ok |-> FALSE, num |-> 0, more |-> 0, size |-> 0]
       ELSE [ok |-> TRUE, num |-> u \div 16, more |-> (u \div 8) % 2, size |-> SizeOf(u % 8)]

BlockFits(len, num, size) == len \in 1..3 /\ size \in Sizes /\ num < Pow2(8 * len - 4)
BlockBytes(len, num, more, size) ==
    LET u == num * 16 + (IF more # 0 THEN 8 ELSE 0) + SzxOf(size)
    IN IF len = 1 THEN <<u>>
       ELSE IF len = 2 THEN <<u \div 256, u % 256>>
       ELSE <<u \div 65536, (u \div 256) % 256, u % 256>>

\* The first block option of a message: [has, ok, num, more, size]
BlockOf(m, n) ==
    LET s == OpsNumbered(m, n)
    IN IF s = <<>> THEN [has |-> FALSE, ok |-> TRUE, num |-> 0, more |-> 0, size |-> 0]
       ELSE LET b == BlockVal(s[1].v)
            IN [has |-> TRUE, ok |-> b.ok, num |-> b.num, more |-> b.more, size |-> b.size]
==============================================================================
