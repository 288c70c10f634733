------------------------------ MODULE BlockMC ------------------------------
(* All block option values up to a number: encoding fits, decodes to the same triple, and no
   two triples share an encoding of the same length (checked through decoding). *)
EXTENDS Msg
CONSTANTS Nums, Lens
BigNums == (0..20000) \cup {1048574, 1048575, 1048576}
VARIABLE x
Init == x \in [num : Nums, more : {0, 1}, size : Sizes, len : Lens]
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
Inv == BlockFits(x.len, x.num, x.size) =>
         LET v == BlockBytes(x.len, x.num, x.more, x.size)
         IN /\ Len(v) = x.len
            /\ \A i \in 1..Len(v) : v[i] \in 0..255
            /\ BlockVal(v) = [ok |-> TRUE, num |-> x.num, more |-> x.more, size |-> x.size]
==============================================================================
