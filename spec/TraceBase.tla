------------------------------ MODULE TraceBase ------------------------------
(* Reading a recorded trace: one JSON object per line, path in the environment. *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
\* Every line was matched by some behaviour; otherwise report the first unmatched line.
MatchedAll ==
    LET d == TLCGet("stats").diameter
    IN IF d - 1 = Len(Log) THEN TRUE ELSE Print(<<"TRACE-REJECTED-AT", d>>, FALSE)
==============================================================================
