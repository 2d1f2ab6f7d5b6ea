------------------------------ MODULE Segments ------------------------------
(* How the variables of one account are kept: packed one after another into *)
(* fixed-size segments, each segment a key of the store.  Writing a variable *)
(* reads, modifies and writes every segment it overlaps.  The refinement     *)
(* says that this behaves like one independent cell per variable.            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Seg,        \* bytes per segment
          Sizes,      \* possible sizes of a variable
          MaxVars,    \* number of variables
          Bytes       \* byte values; 0 among them
ASSUME 1 \in Bytes
ASSUME Seg \in Nat \ {0} /\ 0 \in Bytes /\ 0 \notin Sizes

VARIABLES sizes,      \* the layout: size of each variable
          store       \* segment number -> bytes, where written
vars == <<sizes, store>>

RECURSIVE Offset(_, _)
Offset(s, i) == IF i = 1 THEN 0 ELSE Offset(s, i - 1) + s[i - 1]
Total(s) == Offset(s, Len(s)) + s[Len(s)]
Segs == 0 .. ((MaxVars * CHOOSE m \in Sizes : \A n \in Sizes : m >= n) \div Seg)
Zeros == [i \in 0..(Seg - 1) |-> 0]

\* the segments that a variable overlaps, with the range of each
First(i) == Offset(sizes, i) \div Seg
Last(i)  == (Offset(sizes, i) + sizes[i] - 1) \div Seg
From(i, g) == IF g = First(i) THEN Offset(sizes, i) % Seg ELSE 0
To(i, g)   == IF g = Last(i) THEN (Offset(sizes, i) + sizes[i] - 1) % Seg ELSE Seg - 1
RangeLen(i, g) == To(i, g) - From(i, g) + 1

Read(st, g) == IF g \in DOMAIN st THEN st[g] ELSE Zeros

RECURSIVE Concat(_, _, _)
Concat(st, i, g) ==
   IF g > Last(i) THEN <<>>
   ELSE [j \in 1..RangeLen(i, g) |-> Read(st, g)[From(i, g) + j - 1]] \o Concat(st, i, g + 1)
Get(i) == Concat(store, i, First(i))

\* bytes of the value that go to the segments before g
RECURSIVE Skip(_, _)
Skip(i, g) == IF g = First(i) THEN 0 ELSE Skip(i, g - 1) + RangeLen(i, g - 1)

Put(i, val) == [g \in (DOMAIN store) \cup First(i)..Last(i) |->
   IF g \in First(i)..Last(i)
   THEN [b \in 0..(Seg - 1) |->
           IF b \in From(i, g)..To(i, g) THEN val[Skip(i, g) + b - From(i, g) + 1] ELSE Read(store, g)[b]]
   ELSE store[g]]

Init == /\ sizes \in UNION {[1..n -> Sizes] : n \in 1..MaxVars}
        /\ store = <<>>
\* enough values to tell positions apart, instead of all of them
Values(i) == {[j \in 1..sizes[i] |-> b] : b \in Bytes} \cup
             {[j \in 1..sizes[i] |-> IF j = k THEN 1 ELSE 0] : k \in {1, sizes[i]}}
Next == \E i \in 1..Len(sizes) : \E val \in Values(i) :
           store' = Put(i, val) /\ UNCHANGED sizes
Spec == Init /\ [][Next]_vars

\* the abstraction
Abs == [i \in 1..Len(sizes) |-> Get(i)]
Cells == INSTANCE Cells WITH cells <- Abs
Refines == Cells!Spec

\* the ranges of different variables are disjoint, and cover each variable
Disjoint == \A i, j \in 1..Len(sizes) : i # j =>
   \A g \in Segs : g \in (First(i)..Last(i)) \cap (First(j)..Last(j)) =>
      (From(i, g)..To(i, g)) \cap (From(j, g)..To(j, g)) = {}
Covered == \A i \in 1..Len(sizes) : Len(Get(i)) = sizes[i]
=============================================================================
