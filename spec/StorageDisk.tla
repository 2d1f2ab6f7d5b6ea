----------------------------- MODULE StorageDisk -----------------------------
(***************************************************************************)
(* How the store keeps its layers in SQLite, one statement at a time:      *)
(*                                                                         *)
(*   table  : the rows <<layer, key, value>> of the "values" table         *)
(*   meta   : the "layers" table: layer -> [fp, complete]                  *)
(*   xorfp  : the open layer's change of the fingerprint                   *)
(*                                                                         *)
(* Hashes are modelled symbolically: the fingerprint is the XOR of the     *)
(* hashes of key/value pairs, i.e. a set of pairs under symmetric          *)
(* difference.  Commit is: insert the layer (incomplete), insert the rows  *)
(* one by one in any order, mark the layer complete.  Rewind is one        *)
(* cascading DELETE.  Opening deletes incomplete layers.  The process can  *)
(* die between any two statements.                                         *)
(*                                                                         *)
(* TLC checks that this implements Storage (with Crash = Reopen or         *)
(* CrashCommit), and that the fingerprint of every complete layer is the   *)
(* set of pairs it holds (S05).                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys, Vals, MaxLayers

Absent == -1
NoWrites == [k \in Keys |-> Absent]

VARIABLES table, meta, saved, dirty, xorfp, next,
          pc,        \* "idle", "rows" (committing), "down" (not running)
          todo,      \* rows still to be inserted by the running commit
          res

vars == <<table, meta, saved, dirty, xorfp, next, pc, todo, res>>

Xor(a, b) == (a \ b) \cup (b \ a)
Complete == {l \in DOMAIN meta : meta[l].complete}

Lookup(l, k) ==   \* value of key k at layer l, from the tables
   LET rows == {r \in table : r[1] <= l /\ r[2] = k /\ r[1] \in Complete}
   IN IF rows = {} THEN Absent
      ELSE (CHOOSE r \in rows : \A q \in rows : q[1] <= r[1])[3]

ContentAt(l) == [k \in Keys |-> Lookup(l, k)]
Pairs(c) == {<<k, c[k]>> : k \in {x \in Keys : c[x] # Absent}}
IsDirty == dirty # NoWrites
Over(c, o) == [k \in Keys |-> IF o[k] # Absent THEN o[k] ELSE c[k]]

Init == /\ table = {} /\ meta = (1 :> [fp |-> {}, complete |-> TRUE])
        /\ saved = NoWrites /\ dirty = NoWrites /\ xorfp = {}
        /\ next = 2 /\ pc = "idle" /\ todo = {} /\ res = "ok"

Set(k, v) == /\ pc = "idle"
             /\ dirty' = [dirty EXCEPT ![k] = v] /\ res' = "ok"
             /\ UNCHANGED <<table, meta, saved, xorfp, next, pc, todo>>

\* read through saved and the tables: the value that is being overwritten
Old(k) == IF saved[k] # Absent THEN saved[k] ELSE Lookup(next - 1, k)

Checkpoint ==
   /\ pc = "idle"
   /\ LET ks   == {k \in Keys : dirty[k] # Absent}
          outs == {<<k, Old(k)>> : k \in {x \in ks : Old(x) # Absent}}
          ins  == {<<k, dirty[k]>> : k \in ks}
      IN xorfp' = Xor(Xor(xorfp, outs), ins)
   /\ saved' = Over(saved, dirty) /\ dirty' = NoWrites /\ res' = "ok"
   /\ UNCHANGED <<table, meta, next, pc, todo>>

Rollback == /\ pc = "idle" /\ dirty' = NoWrites /\ res' = "ok"
            /\ UNCHANGED <<table, meta, saved, xorfp, next, pc, todo>>

CommitRefused == /\ pc = "idle" /\ IsDirty /\ res' = "dirty"
                 /\ UNCHANGED <<table, meta, saved, dirty, xorfp, next, pc, todo>>

CommitStart ==
   /\ pc = "idle" /\ ~IsDirty /\ next <= MaxLayers
   /\ meta' = (next :> [fp |-> Xor(meta[next - 1].fp, xorfp), complete |-> FALSE]) @@ meta
   /\ todo' = {<<next, k, saved[k]>> : k \in {x \in Keys : saved[x] # Absent}}
   /\ pc' = "rows"
   /\ UNCHANGED <<table, saved, dirty, xorfp, next, res>>

CommitRow == /\ pc = "rows" /\ \E r \in todo : table' = table \cup {r} /\ todo' = todo \ {r}
             /\ UNCHANGED <<meta, saved, dirty, xorfp, next, pc, res>>

CommitEnd == /\ pc = "rows" /\ todo = {}
             /\ meta' = [meta EXCEPT ![next].complete = TRUE]
             /\ saved' = NoWrites /\ xorfp' = {} /\ next' = next + 1
             /\ pc' = "idle" /\ res' = "ok"
             /\ UNCHANGED <<table, dirty, todo>>

RewindRefused(l) == /\ pc = "idle" /\ IsDirty /\ l < next /\ res' = "dirty"
                    /\ UNCHANGED <<table, meta, saved, dirty, xorfp, next, pc, todo>>

Rewind(l) ==
   /\ pc = "idle" /\ ~IsDirty /\ l < next /\ l >= 1
   /\ meta' = [x \in {y \in DOMAIN meta : y <= l} |-> meta[x]]
   /\ table' = {r \in table : r[1] <= l}
   /\ next' = l + 1 /\ saved' = NoWrites /\ xorfp' = {} /\ res' = "ok"
   /\ UNCHANGED <<dirty, pc, todo>>

\* the process dies between two statements
Crash == /\ pc # "down"
         /\ pc' = "down" /\ todo' = {} /\ res' = "crashed"
         /\ saved' = NoWrites /\ dirty' = NoWrites /\ xorfp' = {}
         /\ UNCHANGED <<table, meta, next>>

\* opening: incomplete layers are deleted, work continues after the last layer
Open == /\ pc = "down"
        /\ meta' = [x \in Complete |-> meta[x]]
        /\ table' = {r \in table : r[1] \in Complete}
        /\ next' = (CHOOSE l \in Complete : \A m \in Complete : m <= l) + 1
        /\ pc' = "idle" /\ res' = "ok"
        /\ UNCHANGED <<saved, dirty, xorfp, todo>>

Next == \/ \E k \in Keys, v \in Vals : Set(k, v)
        \/ Checkpoint \/ Rollback
        \/ CommitRefused \/ CommitStart \/ CommitRow \/ CommitEnd
        \/ \E l \in 1..MaxLayers : Rewind(l) \/ RewindRefused(l)
        \/ Crash \/ Open

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
LastComplete == CHOOSE l \in Complete : \A m \in Complete : m <= l
AbsLayers == [l \in 1..LastComplete |-> ContentAt(l)]

\* S05
FingerprintIsContent == \A l \in Complete : meta[l].fp = Pairs(ContentAt(l))
\* S06/S07
NoGaps == Complete = 1..LastComplete
NoOrphans == \A r \in table : r[1] \in DOMAIN meta
NextIsFresh == pc = "idle" => /\ next = LastComplete + 1
                              /\ DOMAIN meta = Complete

\* every step is a step of the abstract store (ignoring its outcome variable)
Abs == INSTANCE StorageNoRes WITH layers <- AbsLayers, saved <- saved, dirty <- dirty
Refines == [][Abs!NextOrStutter]_<<AbsLayers, saved, dirty>>
=============================================================================
