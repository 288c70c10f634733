------------------------------ MODULE CodecGen ------------------------------
(* Enumerates, with TLC, every datagram built from a header and at most N further bytes of
   a boundary alphabet (nibbles 0, 1, 13, 14, 15, the payload marker, and plain bytes), and
   checks on each one that the codec specification is a function with the round-trip
   property.  The datagrams are written out and replayed into the real parser. *)
EXTENDS Msg, TLC, Json, IOUtils
CONSTANTS N
Heads == {<<64, 1, 0, 0>>, <<65, 69, 128, 1>>, <<80, 2, 255, 255>>, <<64, 0, 1, 2>>,
          <<112, 0, 9, 9>>, <<96, 0, 1, 1>>, <<97, 132, 1, 1>>}
Alpha == {0, 1, 13, 14, 15, 16, 29, 128, 208, 221, 224, 240, 255}
VARIABLE d
Init == d \in Heads
Next == Len(d) < 4 + N /\ \E a \in Alpha : d' = Append(d, a)
Spec == Init /\ [][Next]_d
RoundTrip == LET p == Parse(d)
             IN p.ok => /\ Parse(Format(p.m)) = p
                        /\ Len(Format(p.m)) <= Len(d)
                        /\ MsgCheck(p.m) /\ Sorted(p.m.ops)
Emit == PrintT(<<"GEN", ToJson(d)>>)
==============================================================================
