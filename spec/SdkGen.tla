------------------------------- MODULE SdkGen -------------------------------
(* Random accesses to the storage of the templates in sdk-mock and sdk-wasm. *)
EXTENDS Naturals, Sequences, SdkDecls, TLC, TLCExt, Json, FiniteSets
CONSTANTS Decl, Depth
VARIABLES store, vars, last, steps, t
GFields == Decls[Decl]
GValues(x) == {}
INSTANCE Sdk WITH Fields <- GFields, Values <- GValues
R(S) == RandomElement(IF t < 0 THEN {} ELSE S)
RECURSIVE RBytes(_, _)
RBytes(n, kind) == IF n = 0 THEN <<>>
                   ELSE <<CASE kind = 0 -> 0 [] kind = 1 -> 255 [] kind = 2 -> IF n = 1 THEN 128 ELSE 0 [] kind = 3 -> 1 [] OTHER -> R(0..255)>> \o RBytes(n - 1, kind)
RVal(ty) == IF ty = "bool" THEN <<R(0..1)>> ELSE RBytes(Width[ty], R(0..7))
RIndex(f) == IF GFields[f].len = 0 THEN 0
             ELSE LET n == Cells(f) IN CASE R(1..6) = 1 -> n [] R(1..8) = 1 -> R({n + 1, 2 * n, 255, 256, 65536, 2147483647}) [] OTHER -> R(0..n - 1)
GInit == SInit /\ steps = <<>> /\ t = 0
Flat == [v \in 1..NVars |-> vars'[v - 1]]
GNextW == /\ t < Depth /\ t' = t + 1
          /\ \E f \in {R(1..NFields)} : \E i \in {RIndex(f)} : \E hi \in {IF GFields[f].len > 0 /\ R(1..12) = 1 THEN R({1, 2, 65536}) ELSE 0} : \E x \in {RVal(GFields[f].ty)} :
               IF R(1..3) = 1 THEN Read(f, i, hi) ELSE Write(f, i, hi, x)
          /\ steps' = Append(steps, last' @@ [vars |-> Flat])
Emit == t = Depth => PrintT("TRACE" \o ToJson([decl |-> Decl, fields |-> GFields, schema |-> Schema, steps |-> steps]))
=============================================================================
