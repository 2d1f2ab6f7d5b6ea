-------------------------------- MODULE AbiMC -------------------------------
(* All short byte strings, and all values with few distinct bytes.           *)
EXTENDS Abi, FiniteSets
CONSTANTS Digits, MaxWild, Wild, Small
VARIABLES vs, b
vars == <<vs, b>>
Bits(w) == [1..w -> Digits]
PrimsOf(t) == CASE t \in NumTypes -> {Prim(t, x) : x \in Bits(Width[t])}
                [] t = "bool" -> {Prim(t, <<x>>) : x \in {0, 1}}
                [] t = "address" -> {Prim(t, x) : x \in Bits(AddrLen)}
                [] OTHER -> {Prim(t, <<>>)}
\* A few of each type, for sequences and arrays.
FewOf(t) == CASE t \in NumTypes -> {Prim(t, Zeros(Width[t])), Prim(t, [i \in 1..Width[t] |-> 255])} \cup (IF Width[t] > 1 THEN {Prim(t, [Zeros(Width[t]) EXCEPT ![2] = 64])} ELSE {})
              [] t = "address" -> {Prim(t, [i \in 1..AddrLen |-> 64])}
              [] OTHER -> PrimsOf(t)
Few == UNION {FewOf(t) : t \in PrimTypes}
Arrays == {Arr(<<>>)} \cup UNION {{Arr([i \in 1..n |-> IF i = 1 THEN v ELSE w]) : v \in Few, w \in Few} : n \in Small}
VInit == /\ \/ \E t \in PrimTypes : \E v \in PrimsOf(t) : vs = <<v>>
            \/ \E v \in Few, w \in Few : vs = <<v, w>>
            \/ \E v \in Arrays : vs = <<v>>
            \/ \E v \in Few, w \in Few, n \in Small : vs = <<v, Arr([i \in 1..n |-> w]), v>>
         /\ b = EncAll(vs)
VSpec == VInit /\ [][UNCHANGED vars]_vars
WInit == vs = <<>> /\ b = <<>>
Grow == Len(b) < MaxWild /\ \E x \in Wild : b' = Append(b, x) /\ vs' = vs
WSpec == WInit /\ [][Grow]_vars

RoundTrip == DecAll(b) = Ok(vs, Len(b) + 1)
\* The same value has no shorter payload.
Minimal == \A k \in DOMAIN vs : vs[k].t \in NumTypes => LET p == Tail(Enc(vs[k])) IN Len(p) = 1 \/ p[1] # 0
Bounded == \A k \in DOMAIN vs : vs[k].t \in PrimTypes => Len(Enc(vs[k])) <= MaxSize(vs[k].t)
\* Reading a value does not depend on what follows.
Delimited == LET r == Dec(b, 1) IN r.ok => r.i <= Len(b) + 1 /\ Dec(SubSeq(b, 1, r.i - 1), 1) = r /\ \A n \in 0..(r.i - 2) : ~Dec(SubSeq(b, 1, n), 1).ok
Shortest == LET r == DecAll(b) IN r.ok => LET e == EncAll(r.v) IN Len(e) <= Len(b) /\ DecAll(e) = Ok(r.v, Len(e) + 1)
\* No two types share a marker.
Unambiguous == LET All == {<<t, n>> : t \in NumTypes, n \in 1..8} Real == {p \in All : p[2] <= Width[p[1]]} IN
               /\ \A p \in Real, q \in Real : Base[p[1]] + 16 * p[2] = Base[q[1]] + 16 * q[2] => p = q
               /\ \A p \in Real : LET m == Base[p[1]] + 16 * (p[2] - 1) IN m < 128 /\ m \notin {0, 16, 32, 48, 64} /\ \A n \in ArrLens : m # ArrMarker(n)
=============================================================================
