-------------------------------- MODULE Config --------------------------------
(* Configuration files: lines that are empty, a [section] or name = value; comments from ';' to the end of
   the line.  A value is a word, a number or a quoted string (which ends at a quote that no
   backslash precedes and may continue on the next line behind a backslash).  Pure operators. *)
EXTENDS Integers, Sequences, FiniteSets
IsAlpha(c) == c \in (65..90) \cup (97..122)
IsNum(c) == c \in 48..57
Blank(c) == c \in {9, 11, 12, 13, 32}
NL == 10
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
\* position behind the character c (a tab goes to the next multiple of 4)
Adv(p, c) == IF c = NL THEN [ln |-> p.ln + 1, col |-> 0]
             ELSE IF c = 9 THEN [p EXCEPT !.col = ((p.col + 4) \div 4) * 4] ELSE [p EXCEPT !.col = p.col + 1]
\* position of a token whose first character is c, read at p
TokPos(p, c) == IF c = NL THEN [p EXCEPT !.col = p.col + 1] ELSE Adv(p, c)
RECURSIVE SkipBlank(_, _, _)
SkipBlank(s, i, p) == IF Blank(At(s, i)) THEN SkipBlank(s, i + 1, Adv(p, s[i])) ELSE [i |-> i, p |-> p]
RECURSIVE WordEnd(_, _, _)
WordEnd(s, i, num) == IF IsNum(At(s, i)) \/ (~num /\ (IsAlpha(At(s, i)) \/ At(s, i) = 95)) THEN WordEnd(s, i + 1, num) ELSE i
RECURSIVE LineEnd(_, _)
LineEnd(s, i) == IF i > Len(s) \/ s[i] = NL THEN i ELSE LineEnd(s, i + 1)
\* index of the closing quote, 0 if there is none
RECURSIVE QuoteEnd(_, _, _)
QuoteEnd(s, i, esc) ==
    IF i > Len(s) \/ (s[i] = NL /\ ~esc) THEN 0
    ELSE IF s[i] = 34 /\ ~esc THEN i ELSE QuoteEnd(s, i + 1, s[i] = 92)
RECURSIVE Over(_, _, _, _)
Over(s, i, j, p) == IF i >= j THEN p ELSE Over(s, i + 1, j, Adv(p, s[i]))       \* position behind s[i..j-1]
\* the next token: [t, v, i: behind it, p: position behind it, at: its own position]
Lex(s, i0, p0) ==
    LET k == SkipBlank(s, i0, p0)
        i == k.i
        c == At(s, i)
        at == TokPos(k.p, c)
        Tok(t, v, j) == [t |-> t, v |-> v, i |-> j, p |-> Over(s, i, j, k.p), at |-> at]
    IN IF i > Len(s) THEN Tok("eof", <<>>, i)
       ELSE IF c = NL THEN Tok("eol", <<>>, i + 1)
       ELSE IF c = 59 THEN LET e == LineEnd(s, i) IN IF e > Len(s) THEN Tok("eof", <<>>, e) ELSE Tok("eol", <<>>, e + 1)
       ELSE IF c = 61 THEN Tok("=", <<>>, i + 1)
       ELSE IF c = 91 THEN Tok("[", <<>>, i + 1)
       ELSE IF c = 93 THEN Tok("]", <<>>, i + 1)
       ELSE IF IsAlpha(c) THEN LET e == WordEnd(s, i, FALSE) IN Tok("id", SubSeq(s, i, e - 1), e)
       ELSE IF IsNum(c) THEN LET e == WordEnd(s, i, TRUE) IN Tok("num", SubSeq(s, i, e - 1), e)
       ELSE IF c = 34 THEN LET e == QuoteEnd(s, i + 1, FALSE) IN IF e = 0 THEN Tok("bad", <<>>, i) ELSE Tok("quote", SubSeq(s, i + 1, e - 1), e + 1)
       ELSE Tok("bad", <<>>, i)
OK == 0
LEXICAL == -3
SYNTAX == -4
Fail(tok) == [ret |-> IF tok.t = "bad" THEN LEXICAL ELSE SYNTAX, at |-> tok.at]
\* -> [ret, at (of an error), sets: the assignments in order]
RECURSIVE Lines(_, _, _, _, _)
Lines(s, i, p, sec, sets) ==
    LET a == Lex(s, i, p)
        N(t) == Lex(s, t.i, t.p)
        End(e, sec2, sets2) == IF e.t = "eof" THEN [ret |-> OK, sets |-> sets2]
                               ELSE IF e.t = "eol" THEN Lines(s, e.i, e.p, sec2, sets2) ELSE Fail(e)
    IN CASE a.t \in {"eol", "eof"} -> End(a, sec, sets)
         [] a.t = "id" ->
              LET b == N(a)
                  v == N(b)
                  e == N(v)
              IN IF b.t # "=" THEN Fail(b) ELSE IF v.t \notin {"id", "num", "quote"} THEN Fail(v)
                 ELSE End(e, sec, Append(sets, [sec |-> sec, name |-> a.v, val |-> v.v]))
         [] a.t = "[" ->
              LET b == N(a)
                  d == N(b)
                  e == N(d)
              IN IF b.t # "id" THEN Fail(b) ELSE IF d.t # "]" THEN Fail(d) ELSE End(e, b.v, sets)
         [] OTHER -> Fail(a)
ConfigParse(s) == Lines(s, 1, [ln |-> 1, col |-> 0], <<>>, <<>>)
\* the last assignment wins
Absent == <<-1>>
RECURSIVE Lookup(_, _, _, _)
Lookup(sets, sec, name, i) ==
    IF i = 0 THEN Absent ELSE IF sets[i].sec = sec /\ sets[i].name = name THEN sets[i].val ELSE Lookup(sets, sec, name, i - 1)
Get(sets, sec, name) == Lookup(sets, sec, name, Len(sets))
==============================================================================
