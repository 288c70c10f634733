--------------------------------- MODULE Uri ---------------------------------
(* URIs and relative references (RFC 3986) as the proxy reads and writes them.  A component is
   a byte sequence, or None if it is absent.  Pure operators. *)
EXTENDS Integers, Sequences, FiniteSets
None == <<-1>>
Uri0 == [scheme |-> None, userinfo |-> None, host |-> None, port |-> None, path |-> None, query |-> None, fragment |-> None]
Colon == 58
Slash == 47
AtSign == 64
Quest == 63
Hash == 35
Pct == 37
\* index of the first element of s, from i on, that is in S; 0 if there is none
RECURSIVE First(_, _, _)
First(s, i, S) == IF i > Len(s) THEN 0 ELSE IF s[i] \in S THEN i ELSE First(s, i + 1, S)
Before(s, i) == IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
After(s, i) == SubSeq(s, i + 1, Len(s))

HexOf(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
RECURSIVE DecFrom(_, _, _)
\* percent-decoding -> [ok, v]; an encoded null character is refused
DecFrom(s, i, acc) ==
    IF i > Len(s) THEN [ok |-> TRUE, v |-> acc]
    ELSE IF s[i] # Pct THEN DecFrom(s, i + 1, Append(acc, s[i]))
    ELSE IF i + 2 > Len(s) \/ HexOf(s[i + 1]) = -1 \/ HexOf(s[i + 2]) = -1 THEN [ok |-> FALSE]
    ELSE LET c == HexOf(s[i + 1]) * 16 + HexOf(s[i + 2])
         IN IF c = 0 THEN [ok |-> FALSE] ELSE DecFrom(s, i + 3, Append(acc, c))
Decode(s) == IF s = None THEN [ok |-> TRUE, v |-> None] ELSE DecFrom(s, 1, <<>>)

\* the ':' in front of the port: the first one that is not inside brackets
RECURSIVE PortAt(_, _, _)
PortAt(s, i, inb) ==
    IF i > Len(s) THEN 0
    ELSE LET nb == IF ~inb THEN s[i] = 91 ELSE s[i] # 93
         IN IF ~nb /\ s[i] = Colon THEN i ELSE PortAt(s, i + 1, nb)
Unbracket(h) == IF Len(h) >= 2 /\ h[1] = 91 /\ h[Len(h)] = 93 THEN SubSeq(h, 2, Len(h) - 1) ELSE h
OrNone(s) == IF s = <<>> THEN None ELSE s

\* s split into its raw components
Split(s) ==
    LET c == First(s, 1, {Colon, Slash, Quest, Hash})
        hasScheme == c > 0 /\ s[c] = Colon
        scheme == IF hasScheme THEN OrNone(SubSeq(s, 1, c - 1)) ELSE None
        r1 == IF hasScheme THEN After(s, c) ELSE s
        f == First(r1, 1, {Hash})
        fragment == IF f = 0 THEN None ELSE After(r1, f)
        r2 == Before(r1, f)
        q == First(r2, 1, {Quest})
        query == IF q = 0 THEN None ELSE After(r2, q)
        hier == Before(r2, q)
        isAuth == Len(hier) >= 2 /\ hier[1] = Slash /\ hier[2] = Slash
        r3 == IF isAuth THEN SubSeq(hier, 3, Len(hier)) ELSE <<>>
        p == First(r3, 1, {Slash})
        auth == Before(r3, p)
        path == IF isAuth THEN (IF p = 0 THEN None ELSE SubSeq(r3, p, Len(r3))) ELSE OrNone(hier)
        u == First(auth, 1, {AtSign})
        userinfo == IF u = 0 THEN None ELSE SubSeq(auth, 1, u - 1)
        hp == After(auth, u)
        k == PortAt(hp, 1, FALSE)
        port == IF k = 0 THEN None ELSE After(hp, k)
        host == OrNone(Unbracket(Before(hp, k)))
    IN [scheme |-> scheme, userinfo |-> IF isAuth THEN userinfo ELSE None, host |-> IF isAuth THEN host ELSE None,
        port |-> IF isAuth THEN port ELSE None, path |-> path, query |-> query, fragment |-> fragment]
UriParse(s) ==
    LET p == Split(s)
        d == [f \in DOMAIN p |-> Decode(p[f])]
    IN IF \E f \in DOMAIN p : ~d[f].ok THEN [ok |-> FALSE] ELSE [ok |-> TRUE, u |-> [f \in DOMAIN p |-> d[f].v]]

------------------------------------------------------------------------------
\* writing
Plain == (48..57) \cup (65..90) \cup (97..122) \cup {45, 46, 95, 126} \cup {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61}
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
\* a sequence of units: single characters and percent-encoded triplets
Units(s, extra) == [i \in 1..Len(s) |-> IF s[i] \in Plain \cup extra THEN <<s[i]>> ELSE <<Pct, HexDigit(s[i] \div 16), HexDigit(s[i] % 16)>>]
Lit(s) == [i \in 1..Len(s) |-> <<s[i]>>]
Opt(c, x) == IF c = None THEN <<>> ELSE x
UriUnits(u) ==
    LET colon == \E i \in 1..Len(u.host) : u.host[i] = Colon IN
    Opt(u.scheme, Units(u.scheme, {}) \o Lit(<<Colon>>))
    \o (IF u.userinfo # None \/ u.host # None \/ u.port # None THEN Lit(<<Slash, Slash>>) ELSE <<>>)
    \o Opt(u.userinfo, Units(u.userinfo, {Colon}) \o Lit(<<AtSign>>))
    \o Opt(u.host, IF colon THEN Lit(<<91>>) \o Units(u.host, {Colon}) \o Lit(<<93>>) ELSE Units(u.host, {}))
    \o Opt(u.port, Lit(<<Colon>>) \o Units(u.port, {}))
    \o Opt(u.path, Units(u.path, {Slash, Colon, AtSign}))
    \o Opt(u.query, Lit(<<Quest>>) \o Units(u.query, {Quest, Slash, Colon, AtSign}))
    \o Opt(u.fragment, Lit(<<Hash>>) \o Units(u.fragment, {Quest, Slash, Colon, AtSign}))
RECURSIVE Join(_, _)
Join(us, i) == IF i > Len(us) THEN <<>> ELSE us[i] \o Join(us, i + 1)
UriText(u) == Join(UriUnits(u), 1)
\* the longest run of whole units that fits in n bytes
RECURSIVE Fit(_, _, _)
Fit(us, i, n) == IF i > Len(us) \/ Len(us[i]) > n THEN <<>> ELSE us[i] \o Fit(us, i + 1, n - Len(us[i]))
\* the text can be read back: no component is placed where another would be seen
Readable(u) ==
    LET auth == u.userinfo # None \/ u.host # None \/ u.port # None
        p == u.path
    IN /\ auth /\ p # None => p # <<>> /\ p[1] = Slash
       /\ ~auth /\ p # None => ~(Len(p) >= 2 /\ p[1] = Slash /\ p[2] = Slash)
       /\ u.scheme = None /\ ~auth /\ p # None =>
            LET c == First(p, 1, {Colon, Slash}) IN c = 0 \/ p[c] = Slash
       /\ \A f \in {"scheme", "host", "path"} : u[f] # <<>>
==============================================================================
