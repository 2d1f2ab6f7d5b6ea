----------------------------- MODULE FixedGasAll ----------------------------
(* Every program of a small instance, with its verdict and prices, for       *)
(* replay.                                                                   *)
EXTENDS FixedGasMC, TLC, Json
\* The entry points are empty.
ANext == (cur <= NF - 2 /\ \E t \in Tokens : Len(code[cur]) < MaxLen /\ (Opens(t) => Deep < MaxDepth) /\ Write(t)) \/ Close
Entries == [f \in Fns |-> IF f = NF - 1 THEN "alloc" ELSE IF f = NF THEN "verify" ELSE "fn"]
AInit == /\ Init0 /\ kind = Entries /\ exps = [alloc |-> "ok", verify |-> "ok"]
         /\ pr = [o \in OpNames |-> IF o = "block" THEN 2 ELSE IF o = "nop" THEN 3 ELSE 1] /\ hp = [h \in DOMAIN Hosts |-> 1]
Prog == [code |-> code, kind |-> kind, exps |-> exps, pr |-> pr, hp |-> hp, reasons |-> Reasons, calls |-> [f \in Fns |-> Calls(f)],
         prices |-> IF Accepted THEN Prices ELSE <<>>]
EmitAll == ph = "closed" => PrintT("TRACE" \o ToJson(Prog))
=============================================================================
