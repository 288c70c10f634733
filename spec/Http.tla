-------------------------------- MODULE Http --------------------------------
(* HTTP/1.1 messages as the proxy reads and writes them: start line of three fields, headers
   (with continuation lines), and a body delimited by Content-Length or chunked transfer coding.
   Pure operators over byte sequences. *)
EXTENDS Integers, Sequences, FiniteSets
CR == 13
LF == 10
SP == 32
IsWs(c) == c \in {9, 10, 11, 12, 13, 32}
IsDigit(c) == c \in 48..57
IsHex(c) == c \in (48..57) \cup (65..70) \cup (97..102)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerS(s) == [i \in 1..Len(s) |-> Lower(s[i])]
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* first index >= i, before any null byte, of a line end / of the character c; 0 if there is none
RECURSIVE Crlf(_, _)
Crlf(s, i) == IF i > Len(s) \/ s[i] = 0 THEN 0 ELSE IF s[i] = CR /\ At(s, i + 1) = LF THEN i ELSE Crlf(s, i + 1)
RECURSIVE CharAt(_, _, _)
CharAt(s, i, c) == IF i > Len(s) \/ s[i] = 0 THEN 0 ELSE IF s[i] = c THEN i ELSE CharAt(s, i + 1, c)

\* white space around a field is removed, runs inside become one space
RECURSIVE Squeeze(_, _, _)
Squeeze(s, i, pend) ==
    IF i > Len(s) THEN <<>>
    ELSE IF IsWs(s[i]) THEN Squeeze(s, i + 1, TRUE)
    ELSE (IF pend THEN <<SP, s[i]>> ELSE <<s[i]>>) \o Squeeze(s, i + 1, FALSE)
RECURSIVE SkipWs(_, _)
SkipWs(s, i) == IF i <= Len(s) /\ IsWs(s[i]) THEN SkipWs(s, i + 1) ELSE i
Trim(s) == Squeeze(s, SkipWs(s, 1), FALSE)

Http0 == [start |-> <<>>, hdrs |-> <<>>, body |-> <<>>]
Bad == [r |-> "bad"]
More == [r |-> "more"]

\* the end of a header that starts at i: index of its CRLF, continuation lines included; 0 if not there yet
RECURSIVE HdrEnd(_, _)
HdrEnd(s, i) ==
    LET e == Crlf(s, i) IN
    IF e = 0 THEN 0 ELSE IF At(s, e + 2) \in {SP, 9} THEN HdrEnd(s, e + 3) ELSE e
\* -> [r, hdrs, n: index behind the blank line]
RECURSIVE Headers(_, _, _)
Headers(s, i, acc) ==
    LET b == Crlf(s, i)
    IN IF b = i THEN [r |-> "ok", hdrs |-> acc, n |-> i + 2]
       ELSE LET e == HdrEnd(s, i) IN
            IF e = 0 THEN More
            ELSE LET line == SubSeq(s, i, e - 1)
                     c == CharAt(line, 1, 58)
                 IN IF c = 0 THEN Bad
                    ELSE Headers(s, e + 2, Append(acc, [n |-> Trim(SubSeq(line, 1, c - 1)), v |-> Trim(SubSeq(line, c + 1, Len(line)))]))

Big == 1000000000
RECURSIVE HexNum(_, _, _)
HexNum(s, i, acc) == IF i <= Len(s) /\ IsHex(s[i]) THEN HexNum(s, i + 1, IF acc > 60000000 THEN Big ELSE acc * 16 + HexVal(s[i])) ELSE acc
ChunkSize(s, i) == IF At(s, i) = 48 /\ At(s, i + 1) \in {88, 120} /\ IsHex(At(s, i + 2)) THEN HexNum(s, i + 2, 0) ELSE HexNum(s, i, 0)
RECURSIVE DecNum(_, _, _)
DecNum(s, i, acc) == IF i <= Len(s) THEN DecNum(s, i + 1, IF acc > 90000000 THEN Big ELSE acc * 10 + (s[i] - 48)) ELSE acc
\* -> [r, body, n: index of the trailer section]
RECURSIVE Chunks(_, _, _)
Chunks(s, i, acc) ==
    LET e == Crlf(s, i) IN
    IF e = 0 THEN More
    ELSE IF ~IsHex(s[i]) THEN Bad
    ELSE LET k == ChunkSize(s, i)
             d == e + 2
         IN IF k = 0 THEN [r |-> "ok", body |-> acc, n |-> d]
            ELSE IF d + k + 1 > Len(s) THEN More
            ELSE IF s[d + k] # CR \/ s[d + k + 1] # LF THEN Bad
            ELSE Chunks(s, d + k + 2, acc \o SubSeq(s, d, d + k - 1))

S_te == <<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>
S_chunked == <<99,104,117,110,107,101,100>>
S_cl == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
Body(s, i, hdrs) ==
    LET chunked == \E j \in 1..Len(hdrs) : LowerS(hdrs[j].n) = S_te /\ LowerS(hdrs[j].v) = S_chunked
        cls == {j \in 1..Len(hdrs) : LowerS(hdrs[j].n) = S_cl}
        okcl(v) == v # <<>> /\ \A j \in 1..Len(v) : IsDigit(v[j])
        toobig(v) == okcl(v) /\ Len(v) > 19
    IN IF \E j \in cls : ~okcl(hdrs[j].v) THEN Bad
       ELSE IF chunked
       THEN LET c == Chunks(s, i, <<>>) IN
            IF c.r # "ok" THEN c
            ELSE LET t == Headers(s, c.n, hdrs) IN IF t.r # "ok" THEN t ELSE [r |-> "ok", hdrs |-> t.hdrs, body |-> c.body, n |-> t.n]
       ELSE LET n == IF cls = {} THEN 0 ELSE DecNum(hdrs[CHOOSE j \in cls : \A k \in cls : k <= j].v, 1, 0)
            IN IF \E j \in cls : toobig(hdrs[j].v) THEN [r |-> "either"]
               ELSE IF i + n - 1 > Len(s) THEN More
               ELSE [r |-> "ok", hdrs |-> hdrs, body |-> SubSeq(s, i, i + n - 1), n |-> i + n]

\* -> [r: "ok" with m and the number n of bytes of the message; "more": incomplete; "bad"]
HttpParse(s) ==
    LET e == Crlf(s, 1) IN
    IF e = 0 THEN More
    ELSE LET line == SubSeq(s, 1, e - 1)
             a == CharAt(line, 1, SP)
             b == IF a = 0 THEN 0 ELSE CharAt(line, a + 1, SP)
         IN IF a <= 1 \/ b <= a + 1 \/ b = Len(line) THEN Bad
            ELSE LET h == Headers(s, e + 2, <<>>) IN
                 IF h.r # "ok" THEN h
                 ELSE LET d == Body(s, h.n, h.hdrs) IN
                      IF d.r # "ok" THEN d
                      ELSE [r |-> "ok", n |-> d.n - 1,
                            m |-> [start |-> <<SubSeq(line, 1, a - 1), SubSeq(line, a + 1, b - 1), SubSeq(line, b + 1, Len(line))>>,
                                   hdrs |-> d.hdrs, body |-> d.body]]

------------------------------------------------------------------------------
\* writing
Crlf2 == <<CR, LF>>
RECURSIVE HdrText(_, _)
HdrText(hs, i) == IF i > Len(hs) THEN <<>> ELSE hs[i].n \o <<58, SP>> \o hs[i].v \o Crlf2 \o HdrText(hs, i + 1)
HttpText(m) == m.start[1] \o <<SP>> \o m.start[2] \o <<SP>> \o m.start[3] \o Crlf2 \o HdrText(m.hdrs, 1) \o Crlf2 \o m.body
RECURSIVE HexText(_)
HexText(n) == LET d == n % 16
                  c == <<IF d < 10 THEN 48 + d ELSE 87 + d>>
              IN IF n < 16 THEN c ELSE HexText(n \div 16) \o c
ChunkText(d) == HexText(Len(d)) \o Crlf2 \o d \o Crlf2
LastChunkText == <<48, CR, LF>>
TrailerText(n, v) == n \o <<58, SP>> \o v \o Crlf2
\* what a buffer of cap > 0 bytes holds after text was written to it: as much as fits, null-terminated
Wrote(buf, cap, text) ==
    LET k == IF Len(text) < cap THEN Len(text) ELSE cap - 1
    IN cap = 0 \/ (SubSeq(buf, 1, k) = SubSeq(text, 1, k) /\ buf[k + 1] = 0)
==============================================================================
