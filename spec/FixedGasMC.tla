----------------------------- MODULE FixedGasMC -----------------------------
(* All programs of a few short functions.                                    *)
EXTENDS FixedGas
CONSTANTS MaxLen, MaxDepth
Tokens == {I("op", 1, <<>>), I("op", 2, <<>>), I("block", 0, <<>>), I("if", 0, <<>>), I("else", 0, <<>>), I("end", 0, <<>>),
           I("br", 0, <<>>), I("br", 1, <<>>), I("br_if", 0, <<>>), I("br_if", 1, <<>>), I("br_table", 0, <<0, 1>>),
           I("return", 0, <<>>), I("loop", 0, <<>>)} \cup {I("call", f, <<>>) : f \in Fns}
MInit == /\ Init0 /\ kind = [f \in Fns |-> "fn"] /\ exps = [alloc |-> "ok", verify |-> "ok"]
         /\ pr = [o \in OpNames |-> IF o = "block" THEN 2 ELSE 1] /\ hp = [h \in DOMAIN Hosts |-> 1]
MNext == (\E t \in Tokens : Len(code[cur]) < MaxLen /\ (Opens(t) => Deep < MaxDepth) /\ Write(t)) \/ Close \/ RunNext
MSpec == MInit /\ [][MNext]_gvars /\ WF_gvars(Step)
=============================================================================
