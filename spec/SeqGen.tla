------------------------------- MODULE SeqGen -------------------------------
(* All sequences of N abstract inputs: the harness scripts map each to a concrete stimulus. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Inputs
VARIABLE h
Init == h = <<>>
Next == /\ Len(h) < N
        /\ \E i \in Inputs : h' = Append(h, i)
        /\ (Len(h') = N) => PrintT(<<"GEN", ToJson(h')>>)
Spec == Init /\ [][Next]_h
==============================================================================
