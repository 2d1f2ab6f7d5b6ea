--------------------------------- MODULE Sdk --------------------------------
(* The storage of a template written with the SDK.                           *)
(*                                                                           *)
(* The author declares fields: a value of some type, or an array of them.    *)
(* store is what the author sees; vars is what the account holds, numbered   *)
(* variables of some bytes each.  The SDK gives every field a run of         *)
(* variable numbers, one per cell, in the order of declaration.              *)
EXTENDS Naturals, Sequences, SdkDecls
CONSTANTS Fields,        \* <<[ty, len], ..>>, len is 0 for a field that is no array
          Values(_)      \* the values of a type (bytes, the least significant first)
VARIABLES store, vars, last
Width == [bool |-> 1, i8 |-> 1, u8 |-> 1, i16 |-> 2, u16 |-> 2, i32 |-> 4, u32 |-> 4, i64 |-> 8, u64 |-> 8, Amount |-> 8, Address |-> 20]
Zeros(n) == [k \in 1..n |-> 0]
NFields == Len(Fields)
Cells(f) == IF Fields[f].len = 0 THEN 1 ELSE Fields[f].len
Bytes(f) == Width[Fields[f].ty]
RECURSIVE First(_), Offset(_)
First(f) == IF f = 1 THEN 0 ELSE First(f - 1) + Cells(f - 1)
Offset(f) == IF f = 1 THEN 0 ELSE Offset(f - 1) + Cells(f - 1) * Bytes(f - 1)
NVars == First(NFields) + Cells(NFields)
Var(f, i) == First(f) + i
Schema == [f \in 1..NFields |-> [id |-> First(f), offset |-> Offset(f), bytes |-> Bytes(f), ty |-> Fields[f].ty, len |-> Fields[f].len]]
FieldOf(v) == CHOOSE f \in 1..NFields : First(f) <= v /\ v < First(f) + Cells(f)

None == [op |-> "none", f |-> 1, i |-> 0, hi |-> 0, ok |-> TRUE, v |-> <<>>]
SInit == /\ store = [f \in 1..NFields |-> [k \in 1..Cells(f) |-> Zeros(Bytes(f))]]
         /\ vars = [v \in 0..NVars - 1 |-> Zeros(Bytes(FieldOf(v)))]
         /\ last = None
Within(f, i, hi) == hi = 0 /\ i < Cells(f)     \* an index is hi * 2^32 + i
Write(f, i, hi, x) ==
  IF Within(f, i, hi)
  THEN /\ store' = [store EXCEPT ![f][i + 1] = x]
       /\ vars' = [vars EXCEPT ![Var(f, i)] = x]
       /\ last' = [op |-> "write", f |-> f, i |-> i, hi |-> hi, ok |-> TRUE, v |-> x]
  ELSE /\ UNCHANGED <<store, vars>>              \* the transaction is aborted
       /\ last' = [op |-> "write", f |-> f, i |-> i, hi |-> hi, ok |-> FALSE, v |-> x]
Read(f, i, hi) ==
  /\ UNCHANGED <<store, vars>>
  /\ last' = [op |-> "read", f |-> f, i |-> i, hi |-> hi, ok |-> Within(f, i, hi), v |-> IF Within(f, i, hi) THEN vars[Var(f, i)] ELSE <<>>]
Indices(f) == 0..Cells(f) + 1
SNext == \E f \in 1..NFields : \E i \in IF Fields[f].len = 0 THEN {0} ELSE Indices(f) : \E hi \in IF Fields[f].len = 0 THEN {0} ELSE {0, 1} :
           Read(f, i, hi) \/ \E x \in Values(Fields[f].ty) : Write(f, i, hi, x)
SSpec == SInit /\ [][SNext]_<<store, vars, last>>

\* every cell has a variable of its own, of the right size
Disjoint == \A f, g \in 1..NFields : \A i \in 0..Cells(f) - 1 : \A j \in 0..Cells(g) - 1 : Var(f, i) = Var(g, j) => f = g /\ i = j
Covered == \A v \in 0..NVars - 1 : LET f == FieldOf(v) IN v - First(f) < Cells(f) /\ Len(vars[v]) = Bytes(f)
\* reading returns what was written last
Agree == \A f \in 1..NFields : \A i \in 0..Cells(f) - 1 : store[f][i + 1] = vars[Var(f, i)]
ReadsLatest == last.op = "read" /\ last.ok => last.v = store[last.f][last.i + 1]
\* writing changes one cell, and only if there is such a cell
OneCell == [][\A v \in 0..NVars - 1 : vars'[v] # vars[v] => last'.op = "write" /\ last'.ok /\ v = Var(last'.f, last'.i)]_<<store, vars, last>>
=============================================================================
