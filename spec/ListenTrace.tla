----------------------------- MODULE ListenTrace -----------------------------
(* The proxy's listener: every connection accepted is handed to one thread of its own, or closed when that is impossible; failed accepts
   do not stop it; when it ends it closes the server socket once and holds nothing. *)
EXTENDS TraceBase
VARIABLES l, st, cur, last, handed, short, cfg
vars == <<l, st, cur, last, handed, short, cfg>>
E == Log[l]
K(k) == l <= Len(Log) /\ E.k = k
No == [s |-> -1, con |-> FALSE]
Init == l = 1 /\ st = "none" /\ cur = No /\ last = -1 /\ handed = 0 /\ short = FALSE /\ cfg = [index |-> 0, stop |-> 0, nomem |-> 0, fault |-> 0]
\* st: none, open (server socket), made, run, closed
Begin == K("begin") /\ st' = "none" /\ cur' = No /\ last' = -1 /\ handed' = 0 /\ short' = FALSE /\ cfg' = [index |-> E.index, stop |-> E.stop, nomem |-> E.nomem, fault |-> E.fault]
LOpen == K("lopen") /\ st = "none" /\ E.port = 8443 /\ E.timeout = 7 /\ st' = (IF E.ok = 1 THEN "open" ELSE "none") /\ UNCHANGED <<cur, last, handed, short, cfg>>
Made == K("made") /\ (E.ok = 1 <=> st = "open") /\ (E.ok = 1 \/ cfg.nomem = 1 \/ cfg.fault = 1) /\ st' = (IF E.ok = 1 THEN "made" ELSE "failed") /\ UNCHANGED <<cur, last, handed, short, cfg>>
LRun == K("lrun") /\ st = "made" /\ st' = (IF E.ok = 1 THEN "run" ELSE "refused") /\ UNCHANGED <<cur, last, handed, short, cfg>>
\* a connection is accepted only while the one before has been dealt with and the proxy is to go on
Acc == /\ K("acc") /\ st = "run" /\ cur = No /\ E.go = 1
       /\ cur' = (IF E.r = "O" THEN [s |-> E.s, con |-> FALSE] ELSE No) /\ UNCHANGED <<st, last, handed, short, cfg>>
New == /\ K("new") /\ st = "run" /\ cur.s = E.s /\ E.s >= 0 /\ ~cur.con /\ E.li = cfg.index /\ E.param = 1
       /\ E.ci > last /\ last' = E.ci
       /\ cur' = [cur EXCEPT !.con = (E.ok = 1)] /\ short' = (short \/ E.ok = 0) /\ UNCHANGED <<st, handed, cfg>>
Thr == /\ K("thr") /\ st = "run" /\ cur.s = E.s /\ E.s >= 0 /\ cur.con /\ E.fn = 1
       /\ IF E.ok = 1 THEN cur' = No /\ handed' = handed + 1 /\ UNCHANGED short ELSE short' = TRUE /\ UNCHANGED <<cur, handed>>
       /\ UNCHANGED <<st, last, cfg>>
\* what cannot be served is closed
Drop == K("drop") /\ cur.s = E.s /\ E.s >= 0 /\ ~cur.con /\ short /\ cur' = No /\ UNCHANGED <<st, last, handed, short, cfg>>
Del == K("del") /\ cur.s = E.s /\ E.s >= 0 /\ cur.con /\ short /\ cur' = No /\ UNCHANGED <<st, last, handed, short, cfg>>
LClose == /\ K("lclose") /\ st \in {"run", "refused", "open"} /\ cur = No
          /\ st' = (CASE st = "open" -> "none" [] st = "refused" -> "undone" [] OTHER -> "closed") /\ UNCHANGED <<cur, last, handed, short, cfg>>
\* the end: only because it was told so or for want of resources
Fin == /\ K("fin") /\ st \in {"closed", "undone", "failed"} /\ E.live = 0 /\ E.attr = 0 /\ cur = No /\ (E.ret = 0 <=> st = "closed")
       /\ UNCHANGED <<st, cur, last, handed, short, cfg>>
\* the number of accepts met before the end
Mark == (K("start") \/ K("end")) /\ UNCHANGED <<st, cur, last, handed, short, cfg>>
Early == K("early") /\ (short \/ cfg.nomem = 1 \/ st # "run") /\ UNCHANGED <<st, cur, last, handed, short, cfg>>
Next == l' = l + 1 /\ (Begin \/ LOpen \/ Made \/ LRun \/ Acc \/ New \/ Thr \/ Drop \/ Del \/ LClose \/ Fin \/ Mark \/ Early)
Spec == Init /\ [][Next]_vars
Accepted == MatchedAll
==============================================================================
