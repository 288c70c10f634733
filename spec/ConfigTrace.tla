------------------------------ MODULE ConfigTrace ------------------------------
(* Recorded uses of the configuration library and of the proxy's parameters against Config. *)
EXTENDS Config, TraceBase
VARIABLES l, sets, known       \* the assignments made so far; whether they are known (not after a failed parse)
vars == <<l, sets, known>>
E == Log[l]
K(k) == l <= Len(Log) /\ E.k = k
Init == l = 1 /\ sets = <<>> /\ known = TRUE
Begin == (K("start") \/ K("reset")) /\ sets' = <<>> /\ known' = TRUE
Same == UNCHANGED <<sets, known>>
DoParse == /\ K("parse")
           /\ LET p == ConfigParse(E.s) IN
              IF p.ret = OK THEN E.ret = OK /\ sets' = sets \o p.sets /\ UNCHANGED known
              ELSE E.ret = p.ret /\ E.line = p.at.ln /\ E.col = p.at.col /\ known' = FALSE /\ UNCHANGED sets
DoSet == K("set") /\ E.ret = OK /\ sets' = Append(sets, [sec |-> E.sec, name |-> E.name, val |-> E.val]) /\ UNCHANGED known
DoGet == K("get") /\ (known => E.val = Get(sets, E.sec, E.name)) /\ Same
Fin == K("fin") /\ E.leak = 0 /\ Same
\* an assignment that fails for lack of memory leaves what was there
DoSetNoMem == K("setfail") /\ (IF E.ret = OK THEN sets' = Append(sets, [sec |-> E.sec, name |-> E.name, val |-> E.val]) ELSE E.ret = -2 /\ UNCHANGED sets) /\ UNCHANGED known

\* parameters of the proxy: values of the file or defaults
Def(v, d) == IF v = Absent THEN d ELSE v
Levels == << <<101,114,114,111,114>>, <<119,97,114,110,105,110,103>>, <<110,111,116,105,99,101>>, <<105,110,102,111>>, <<100,101,98,117,103>> >>
N_port == <<112,111,114,116>>
N_level == <<108,111,103,95,108,101,118,101,108>>
N_hs == <<104,116,116,112,95,115,101,114,118,101,114>>
N_cc == <<99,111,97,112,95,99,108,105,101,110,116>>
N_key == <<107,101,121,95,102,105,108,101>>
N_cert == <<99,101,114,116,95,102,105,108,101>>
N_trust == <<116,114,117,115,116,95,102,105,108,101>>
DoParam ==
    /\ K("param")
    /\ LET p == ConfigParse(E.s)
           g(sec, n) == Get(p.sets, sec, n)
           lev == Def(g(<<>>, N_level), Levels[4])
       IN IF E.nofile = 1 \/ p.ret # OK \/ ~(\E i \in 1..5 : Levels[i] = lev) THEN E.ret < 0 /\ E.cleared = 1
          ELSE /\ E.ret = 0
               /\ E.port = Def(g(<<>>, N_port), <<52,52,51,48>>)
               /\ E.level = (CHOOSE i \in 1..5 : Levels[i] = lev) - 1
               /\ E.hkey = Def(g(N_hs, N_key), E.dhkey) /\ E.hcert = Def(g(N_hs, N_cert), E.dhcert) /\ E.htrust = Def(g(N_hs, N_trust), E.dhtrust)
               /\ E.ckey = Def(g(N_cc, N_key), E.dckey) /\ E.ccert = Def(g(N_cc, N_cert), E.dccert) /\ E.ctrust = Def(g(N_cc, N_trust), E.dctrust)
    /\ Same
\* each error has a text of its own (kw: the error the text names, 1 if none)
DoErr == K("strerr") /\ Same /\ E.kw = (IF E.code \in -4..0 THEN E.code ELSE 1)
Next == l' = l + 1 /\ (Begin \/ (K("end") /\ Same) \/ DoParse \/ DoSet \/ DoSetNoMem \/ DoGet \/ Fin \/ DoParam \/ DoErr)
Spec == Init /\ [][Next]_vars
Accepted == MatchedAll
==============================================================================
