----------------------------- MODULE FixedGasGen ----------------------------
(* Random programs, with the verdict and the prices the specification gives. *)
EXTENDS FixedGas, TLC, Json
CONSTANTS MaxLen, MaxDepth, Inits, Wild    \* Wild: how many of 100 instructions are forbidden ones
VARIABLES rank,     \* calls go to functions of higher rank, or anywhere if rank = <<>>
          quota, done
R(S) == RandomElement(IF Len(opens) >= 0 THEN S ELSE {})
L(s) == s[R(1..Len(s))]

Perms == {p \in [Fns -> Fns] : \A a, b \in Fns : p[a] = p[b] => a = b}
Pick(x, s) == s[RandomElement(1..Len(s)) + 0 * x]
ExpKinds == <<"ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "missing", "sig", "kind", "import">>
GInit ==
  /\ Init0 /\ done = FALSE
  /\ \E x \in 1..Inits :
     /\ \E a \in {RandomElement(1..NF) + 0 * x}, b \in {RandomElement(1..(NF - 1)) + 0 * x} :
          LET v == IF b >= a THEN b + 1 ELSE b IN kind = [f \in Fns |-> IF f = a THEN "alloc" ELSE IF f = v THEN "verify" ELSE "fn"]
     /\ \E r \in {RandomElement(Perms)}, w \in {RandomElement(1..2) + 0 * x} : rank = IF Wild > 0 /\ w = 1 THEN <<>> ELSE r
     /\ \E w \in {RandomElement(1..2) + 0 * x} :
          IF w = 1 THEN pr = V0Op /\ hp = V0Host
          ELSE pr = [o \in OpNames |-> RandomElement(0..(9 + 0 * x))] /\ hp = [h \in DOMAIN Hosts |-> RandomElement(0..(40 + 0 * x))]
     /\ exps = IF Wild = 0 THEN [alloc |-> "ok", verify |-> "ok"]
               ELSE [alloc |-> Pick(x, ExpKinds), verify |-> Pick(x, ExpKinds)]
     /\ quota = [f \in Fns |-> RandomElement(0..(MaxLen + 0 * x))]

Count(ks) == Cardinality({i \in DOMAIN code[cur] : code[cur][i].k \in ks})
Costly == \E i \in DOMAIN code[cur] : code[cur][i].k = "host" /\ code[cur][i].n \in {6, 8, 10}
Callees == IF rank = <<>> THEN (IF R(1..5) = 1 THEN Fns ELSE Fns \ {cur}) ELSE {f \in Fns : rank[f] > rank[cur]}
T(k, n) == I(k, n, <<>>)
Nop == T("op", R(1..Len(Plain)))
Label == IF R(1..3) = 1 THEN MaxLabel ELSE R(0..MaxLabel)
RandTok ==
  LET k == R(1..100) IN
  IF R(1..100) <= Wild THEN L(<<T("float", R(0..999)), T("loop", 0), T("call_indirect", 0), T("float", R(0..999))>>)
  ELSE CASE k <= 26 /\ ~(rank = <<>> /\ k <= 10) -> Nop
    [] k \in 27..38 -> IF Deep < MaxDepth THEN T("block", 0) ELSE Nop
    [] k \in 39..53 -> IF Deep < MaxDepth THEN T("if", 0) ELSE Nop
    [] k \in 54..63 -> IF Deep > 0 /\ Head(opens) = "if" THEN T("else", 0) ELSE Nop
    [] k \in 64..75 -> IF Deep > 0 THEN T("end", 0) ELSE Nop
    [] k \in 76..79 -> IF MaxLabel >= 0 THEN T("br", Label) ELSE Nop
    [] k \in 80..86 -> IF MaxLabel >= 0 THEN T("br_if", Label) ELSE Nop
    [] k \in 87..89 -> IF MaxLabel >= 0 THEN I("br_table", 0, [i \in 1..R(1..4) |-> R(0..MaxLabel)]) ELSE Nop
    [] k = 90 -> IF ~HasResult THEN T("return", 0) ELSE Nop
    [] k = 91 -> T("unreachable", 0)
    [] k \in 92..95 \/ (rank = <<>> /\ k <= 10) -> IF Callees # {} /\ Count({"call"}) < 3 THEN T("call", R(Callees)) ELSE Nop
    [] OTHER -> LET h == R(DOMAIN Hosts) IN IF h \in {6, 8, 10} /\ Costly THEN Nop ELSE T("host", h)
GWrite == Len(code[cur]) < quota[cur] /\ \E t \in {RandTok} : Write(t) /\ UNCHANGED <<rank, quota, done>>
GClose == Len(code[cur]) >= quota[cur] /\ Close /\ UNCHANGED <<rank, quota, done>>
Finish == ph = "closed" /\ ~done /\ done' = TRUE /\ UNCHANGED <<rank, quota, gvars>>
GNextW == GWrite \/ GClose \/ Finish
Prog == [code |-> code, kind |-> kind, exps |-> exps, pr |-> pr, hp |-> hp, reasons |-> Reasons, calls |-> [f \in Fns |-> Calls(f)],
         prices |-> IF Accepted THEN Prices ELSE <<>>]
Emit == done => PrintT("TRACE" \o ToJson(Prog))
=============================================================================
