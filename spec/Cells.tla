------------------------------- MODULE Cells --------------------------------
(* One independent cell per variable, zero at first.                        *)
EXTENDS Integers, Sequences
CONSTANT Bytes
VARIABLES sizes, cells
Init == cells = [i \in 1..Len(sizes) |-> [j \in 1..sizes[i] |-> 0]]
Set(i, val) == cells' = [cells EXCEPT ![i] = val] /\ UNCHANGED sizes
Next == \E i \in 1..Len(sizes) : \E val \in [1..sizes[i] -> Bytes] : Set(i, val)
Spec == Init /\ [][Next]_<<sizes, cells>>
=============================================================================
