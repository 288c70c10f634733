------------------------------- MODULE CrossMC -------------------------------
(* Every request URI of a small alphabet: the options it is mapped to name a URI that is mapped to
   the same options again; and every combination of the headers below. *)
EXTENDS Cross, TLC
CONSTANTS N
Alpha == {97, 58, 47, 63, 38, 64, 37, 52, 54, 50}
Heads == {T_coap \o <<58, 47, 47>>, T_coaps \o <<58, 47>>, T_coaps \o <<58, 47, 47, 97, 58>>}
VARIABLES h, s
Init == h \in Heads /\ s = <<>>
Next == h' = h /\ Len(s) < N /\ \E a \in Alpha : s' = Append(s, a)
Spec == Init /\ [][Next]_<<h, s>>
O == UriOps(h \o s)
M == [Msg0 EXCEPT !.ops = O.ops]
RoundTrip == O.ok => LET u == UriOfOps(M) IN u.ok /\ UriOps(U!UriText(u.u)) = O
InOrder == O.ok => Sorted(O.ops)
==============================================================================
