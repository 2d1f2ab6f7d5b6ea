---------------------------- MODULE AccountsGen -----------------------------
EXTENDS Accounts, TLC, Json
CONSTANTS Depth, Sizes, Inits
VARIABLES hist, done, lay

\* random layouts: one per template, all with the same number of variables
RECURSIVE RandSeq(_)
RandSeq(n) == IF n = 0 THEN <<>> ELSE RandSeq(n - 1) \o <<RandomElement(Sizes)>>
RandLayout(x) == [t \in Tmpls |-> [first |-> RandomElement({0, 1, 7, 300}), sizes |-> RandSeq(Cardinality(NVars))]]

Rec(op, args) == /\ Len(hist) < Depth
                 /\ hist' = Append(hist, [op |-> op, args |-> args, res |-> res', st |-> st', layer |-> Len(layers')])
                 /\ UNCHANGED <<done, lay>>
RecPast(op, args, l) == /\ Len(hist) < Depth
                 /\ hist' = Append(hist, [op |-> op, args |-> args, res |-> res', st |-> st', layer |-> Len(layers'), past |-> layers'[l], at |-> l])
                 /\ UNCHANGED <<done, lay>>

\* One random element, chosen anew in each step.  TLC makes an action of its own of each value of
\* a constant bound, which would spoil the weights; this bound depends on the state.
Dyn(S) == IF Len(hist) >= 0 THEN S ELSE {}
R(S) == RandomElement(Dyn(S))
GInit == Init /\ done = FALSE /\ \E x \in 1..Inits : lay = RandLayout(x)
         /\ hist = <<>>
\* \E x \in {R(..)} so that one random choice is made per step
GTmpl == \E t \in {R(Tmpls)} : \E c \in {R(Vals)}, n \in {R(Vals)} : NewTemplate(t, c, n) /\ Rec("template", <<t, c, n>>)
GCore == \E t \in {R(Tmpls)}, c \in {R(Vals)} : SetCore(t, c) /\ Rec("core", <<t, c>>)
GNon  == \E t \in {R(Tmpls)}, c \in {R(Vals)} : SetNon(t, c) /\ Rec("noncore", <<t, c>>)
GAcct == \E a \in {R(Accts)}, t \in {R(Tmpls)} : \E n \in {R(Vals)}, b \in {R(Vals)}, c \in {R(Vals)} :
            NewAccount(a, t, n, b, c) /\ Rec("account", <<a, t, n, b, c>>)
GBal  == \E a \in {R(Accts)}, b \in {R(Vals)} : SetBalance(a, b) /\ Rec("balance", <<a, b>>)
GCtr  == \E a \in {R(Accts)}, b \in {R(Vals)} : SetCounter(a, b) /\ Rec("counter", <<a, b>>)
GVar  == \E a \in {R(Accts)}, i \in {R(NVars)}, v \in {R(Vals)} : SetVar(a, i, v) /\ Rec("var", <<a, i, v>>)
GVarX == \E a \in {R(Accts)}, i \in {R(NVars)}, v \in {R(Vals)} : st.acct[a] # NoAcct /\ SetVar(a, i, v) /\ Rec("var", <<a, i, v>>)
GBalX == \E a \in {R(Accts)}, v \in {R(Vals)} : st.acct[a] # NoAcct /\ SetBalance(a, v) /\ Rec("balance", <<a, v>>)
GCtrX == \E a \in {R(Accts)}, v \in {R(Vals)} : st.acct[a] # NoAcct /\ SetCounter(a, v) /\ Rec("counter", <<a, v>>)
GCheckpoint == Checkpoint /\ Rec("checkpoint", <<>>)
GRollback == Rollback /\ Rec("rollback", <<>>)
GCommit == Commit /\ \E l \in {R(1..Len(layers'))} : RecPast("commit", <<>>, l)
GRewind == \E l \in {IF R(1..6) = 1 THEN R(1..Len(layers)) ELSE R((IF Len(layers) > 1 THEN 2 ELSE 1)..Len(layers))} : Rewind(l) /\ RecPast("rewind", <<l>>, R(1..l))
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, lay, vars>>

\* a behaviour starts with templates and all but one of the accounts
NT == Cardinality(Tmpls)
NA == Cardinality(Accts)
Prologue ==
   \/ /\ Len(hist) < NT
      /\ \E c \in {R(Vals)}, n \in {R(Vals)} : NewTemplate(Len(hist) + 1, c, n) /\ Rec("template", <<Len(hist) + 1, c, n>>)
   \/ /\ Len(hist) >= NT /\ Len(hist) < NT + NA - 1
      /\ \E t \in {R(Tmpls)}, n \in {R(Vals)}, b \in {R(Vals)}, c \in {R(Vals)} :
            LET a == Len(hist) - NT + 1 IN NewAccount(a, t, n, b, c) /\ Rec("account", <<a, t, n, b, c>>)
   \/ /\ Len(hist) = NT + NA - 1 /\ Commit /\ Rec("commit", <<>>)
Started(A) == Len(hist) >= NT + NA /\ A

GNextW == \/ Prologue
          \/ Started(GTmpl) \/ Started(GCore) \/ Started(GNon) \/ Started(GAcct) \/ Started(GBal) \/ Started(GBalX) \/ Started(GCtr) \/ Started(GCtrX)
          \/ Started(GVar) \/ Started(GVarX) \/ Started(GVarX) \/ Started(GVarX) \/ Started(GVarX) \/ Started(GVarX) \/ Started(GVarX) \/ Started(GVarX)
          \/ Started(GCheckpoint) \/ Started(GRollback) \/ Started(GCommit) \/ Started(GRewind) \/ Finish
Emit == done => PrintT("TRACE" \o ToJson([layout |-> lay, steps |-> hist]))
=============================================================================
