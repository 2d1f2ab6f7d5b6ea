------------------------------ MODULE Accounts ------------------------------
(* Templates and accounts as svm-state keeps them: records, balances,       *)
(* counters, section groups and variables, each independent of the others,  *)
(* under the checkpoint / rollback / commit / rewind discipline of Storage. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Tmpls, Accts, NVars, Vals, MaxLayers
NoTmpl == [core |-> 0, non |-> 0]
NoAcct == [name |-> 0, tmpl |-> 0, bal |-> 0, ctr |-> 0]
Zero == 0                 \* the value of a variable that was never written
ASSUME Vals \subseteq Nat \ {0}

VARIABLES st,             \* what is read now
          saved,          \* the same at the last checkpoint
          layers,         \* the same at each committed layer
          res
vars == <<st, saved, layers, res>>

Blank == [tmpl |-> [t \in Tmpls |-> NoTmpl],
          acct |-> [a \in Accts |-> NoAcct],
          var  |-> [a \in Accts |-> [i \in NVars |-> Zero]]]
Init == st = Blank /\ saved = Blank /\ layers = <<Blank>> /\ res = "ok"

Ok == res' = "ok" /\ UNCHANGED <<saved, layers>>

NewTemplate(t, c, n) == Ok /\ st' = [st EXCEPT !.tmpl[t] = [core |-> c, non |-> n]]
\* replacing one group of sections of a template that exists
SetCore(t, c) == /\ st.tmpl[t] # NoTmpl /\ Ok /\ st' = [st EXCEPT !.tmpl[t].core = c]
SetNon(t, n)  == /\ st.tmpl[t] # NoTmpl /\ Ok /\ st' = [st EXCEPT !.tmpl[t].non = n]

\* an account can only be made from a template that exists.  A second creation (from the same
\* template: the layout gives the variables their meaning) replaces the record and leaves the
\* variables.
NewAccount(a, t, n, b, c) ==
   /\ st.acct[a].tmpl \in {0, t}
   /\ IF st.tmpl[t] = NoTmpl
      THEN res' = "notfound" /\ UNCHANGED <<st, saved, layers>>
      ELSE Ok /\ st' = [st EXCEPT !.acct[a] = [name |-> n, tmpl |-> t, bal |-> b, ctr |-> c]]
SetBalance(a, b) ==
   IF st.acct[a] = NoAcct
   THEN res' = "notfound" /\ UNCHANGED <<st, saved, layers>>
   ELSE Ok /\ st' = [st EXCEPT !.acct[a].bal = b]
SetCounter(a, c) ==
   IF st.acct[a] = NoAcct
   THEN res' = "notfound" /\ UNCHANGED <<st, saved, layers>>
   ELSE Ok /\ st' = [st EXCEPT !.acct[a].ctr = c]
SetVar(a, i, v) ==
   IF st.acct[a] = NoAcct
   THEN res' = "notfound" /\ UNCHANGED <<st, saved, layers>>
   ELSE Ok /\ st' = [st EXCEPT !.var[a][i] = v]

Checkpoint == saved' = st /\ res' = "ok" /\ UNCHANGED <<st, layers>>
Rollback == st' = saved /\ res' = "ok" /\ UNCHANGED <<saved, layers>>
\* checkpoint and commit
Commit == /\ Len(layers) < MaxLayers
          /\ saved' = st /\ layers' = Append(layers, st) /\ res' = "ok" /\ UNCHANGED st
\* rollback and rewind
Rewind(l) == /\ l \in 1..Len(layers)
             /\ layers' = SubSeq(layers, 1, l) /\ st' = layers[l] /\ saved' = layers[l] /\ res' = "ok"

Next == \/ \E t \in Tmpls, c, n \in Vals : NewTemplate(t, c, n)
        \/ \E t \in Tmpls, c \in Vals : SetCore(t, c) \/ SetNon(t, c)
        \/ \E a \in Accts, t \in Tmpls, n, b, c \in Vals : NewAccount(a, t, n, b, c)
        \/ \E a \in Accts, b \in Vals : SetBalance(a, b) \/ SetCounter(a, b)
        \/ \E a \in Accts, i \in NVars, v \in Vals : SetVar(a, i, v)
        \/ Checkpoint \/ Rollback \/ Commit \/ \E l \in 1..MaxLayers : Rewind(l)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* A01: a step changes at most one variable, unless it goes back in time
Diff(x, y) == {<<a, i>> \in Accts \X NVars : x.var[a][i] # y.var[a][i]}
OneVarAtATime == [][st' = saved \/ (\E l \in 1..Len(layers) : st' = layers[l]) \/ Cardinality(Diff(st, st')) <= 1]_vars
\* A02: an account keeps its template and name while only its balance, counter or variables are set
Independent == [][(st'.var # st.var /\ st'.acct # st.acct) => (st' = saved \/ \E l \in 1..Len(layers) : st' = layers[l])]_vars
\* accounts have templates that exist
HasTemplate == \A a \in Accts : st.acct[a] # NoAcct => st.tmpl[st.acct[a].tmpl] # NoTmpl
=============================================================================
