------------------------------- MODULE TlsMC -------------------------------
(* A TLS socket step by step: open (handshake, certificate), read everything or write everything, close. Every order of answers of the peer
   and of waits is explored; the outcome must be the one Tls.tla computes from the events met, within the time allowed. *)
EXTENDS Tls
CONSTANTS Budget, Len0, MaxEv
VARIABLES rleft,   \* what a read had left when a rehandshake came between
          pc, op, ev, got, left, spent, held, ret, proved, parts
vars == <<rleft, pc, op, ev, got, left, spent, held, ret, proved, parts>>
\* pc: idle, try, wait, done;   op: hs, rx, tx, bye;  a rehandshake while reading is "hs" with got >= 0
Init == pc = "idle" /\ op = "none" /\ ev = <<>> /\ got = 0 /\ left = 0 /\ spent = 0 /\ held = FALSE /\ ret = 0 /\ proved = FALSE /\ parts = 1 /\ rleft = 0
Start(o) == pc = "idle" /\ pc' = "try" /\ op' = o /\ ev' = <<>> /\ got' = 0 /\ left' = Budget /\ spent' = 0 /\ ret' = 0 /\ parts' = 1
Open == ~held /\ Start("open") /\ held' = TRUE /\ UNCHANGED proved
Use(o) == held /\ proved /\ Start(o) /\ UNCHANGED <<held, proved>>
Meet(o, r, n) == ev' = Append(ev, [o |-> o, r |-> r, n |-> n])
End(r) == pc' = "done" /\ ret' = r
Try ==
    /\ pc = "try" /\ Len(ev) < MaxEv
    /\ CASE op \in {"open", "rehs"} ->
              \/ Meet("hs", "A", 0) /\ pc' = "wait" /\ UNCHANGED <<op, got, left, spent, held, ret, proved, parts>>
              \/ \E r \in {"W", "I", "E"} : Meet("hs", r, 0) /\ End(CASE r = "W" -> Warning [] r = "I" -> Intr [] OTHER -> HsErr)
                    /\ held' = (op = "rehs") /\ UNCHANGED <<op, got, left, spent, proved, parts>>
              \/ /\ Meet("hs", "S", 0)
                 /\ IF op = "rehs" THEN pc' = "try" /\ op' = "rx" /\ left' = rleft /\ UNCHANGED <<got, spent, held, ret, proved, parts>>
                    ELSE \E good \in BOOLEAN : End(IF good THEN 0 ELSE CertErr) /\ held' = good /\ proved' = good /\ UNCHANGED <<op, got, left, spent, parts>>
         [] op \in {"rx", "tx"} ->
              \/ Meet(op, "A", 0) /\ pc' = "wait" /\ UNCHANGED <<op, got, left, spent, held, ret, proved, parts>>
              \/ \E r \in {"0", "I", "E"} : Meet(op, r, 0) /\ End(CASE r = "0" -> 0 [] r = "I" -> Intr [] op = "rx" -> ReadErr [] OTHER -> WriteErr)
                    /\ UNCHANGED <<op, got, left, spent, held, proved, parts>>
              \/ \E n \in 1..(Len0 - got) : Meet(op, "D", n) /\ got' = got + n /\ left' = Budget /\ parts' = parts + 1
                    /\ (IF got + n = Len0 THEN End(Len0) ELSE pc' = "try" /\ UNCHANGED ret) /\ UNCHANGED <<op, spent, held, proved>>
              \/ op = "rx" /\ Meet("rx", "H", 0) /\ op' = "rehs" /\ left' = Budget /\ parts' = parts + 1 /\ UNCHANGED <<pc, got, spent, held, ret, proved>>
         [] op = "bye" ->
              \/ Meet("bye", "A", 0) /\ pc' = "wait" /\ UNCHANGED <<op, got, left, spent, held, ret, proved, parts>>
              \/ \E r \in {"S", "E"} : Meet("bye", r, 0) /\ End(IF r = "S" THEN 1 ELSE 0) /\ held' = FALSE /\ proved' = FALSE /\ UNCHANGED <<op, got, left, spent, parts>>
Err == CASE op \in {"open", "rehs"} -> HsErr [] op = "rx" -> ReadErr [] op = "tx" -> WriteErr [] OTHER -> 0
WaitStep ==
    /\ pc = "wait" /\ Len(ev) < MaxEv
    /\ \/ /\ left > 0 /\ Meet("sel", "R", 0) /\ pc' = "try" /\ left' = left - 1 /\ spent' = spent + 1 /\ UNCHANGED <<op, got, held, ret, proved, parts>>
       \/ \E r \in {"T", "I", "E"} :
              /\ Meet("sel", r, 0) /\ spent' = spent + (IF r = "T" THEN left ELSE 0) /\ left' = 0
              /\ End(IF op = "bye" THEN 0 ELSE CASE r = "T" -> Timeout [] r = "I" -> Intr [] OTHER -> Err)
              /\ held' = (op \notin {"open", "bye"}) /\ proved' = (op \notin {"open", "bye"}) /\ UNCHANGED <<op, got, parts>>
Again == pc = "done" /\ pc' = "idle" /\ UNCHANGED <<op, ev, got, left, spent, held, ret, proved, parts>>
Next == /\ Open \/ Use("rx") \/ Use("tx") \/ Use("bye") \/ Try \/ WaitStep \/ Again
        /\ rleft' = IF op = "rx" /\ op' = "rehs" THEN left ELSE rleft
Spec == Init /\ [][Next]_vars
Expected == CASE op = "open" -> LET h == Handshake(ev, 1) IN IF h.ret = 0 /\ ~proved THEN Res(CertErr, h.i) ELSE h
              [] op \in {"rx", "rehs"} -> ReadAll(ev, 1, Len0, 0)
              [] op = "tx" -> WriteAll(ev, 1, Len0, 0)
              [] OTHER -> Bye(ev, 1)
AsComputed == pc = "done" => Expected = Res(ret, Len(ev) + 1)
InTime == spent <= Budget * parts
HeldMeansProved == (pc = "idle" /\ held) => proved
ClosedMeansReleased == (pc = "idle" /\ op = "bye") => ~held
==============================================================================
