------------------------------- MODULE Storage -------------------------------
(***************************************************************************)
(* The abstract global state: what a user of the key-value store sees.     *)
(*                                                                         *)
(*   layers : the committed contents, one total map per layer              *)
(*   saved  : writes that were checkpointed but not yet committed          *)
(*   dirty  : writes since the last checkpoint                             *)
(*                                                                         *)
(* Contents map every key to a value or to Absent.  The state root of a    *)
(* layer is modelled by the contents themselves (property S05: the root    *)
(* identifies the contents).                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Keys,       \* the keys, 1..n
          Vals,       \* the values a key can be given (natural numbers)
          MaxLayers   \* bound on the number of layers

Absent == -1
NoWrites == [k \in Keys |-> Absent]
Contents == [Keys -> Vals \cup {Absent}]

VARIABLES layers, saved, dirty,
          res     \* outcome of the last operation

vars == <<layers, saved, dirty, res>>

\* overlay o written over contents c
Over(c, o) == [k \in Keys |-> IF o[k] # Absent THEN o[k] ELSE c[k]]

Head_     == Len(layers)                 \* the current layer
Committed == layers[Head_]
Latest    == Over(Over(Committed, saved), dirty)
At(l)     == layers[l]
IsDirty   == dirty # NoWrites

TypeOK == /\ layers \in Seq(Contents)
          /\ Len(layers) >= 1
          /\ saved \in Contents
          /\ dirty \in Contents

Init == /\ layers = <<NoWrites>>
        /\ saved = NoWrites
        /\ dirty = NoWrites
        /\ res = "ok"

Set(k, v) == /\ dirty' = [dirty EXCEPT ![k] = v]
             /\ res' = "ok"
             /\ UNCHANGED <<layers, saved>>

Checkpoint == /\ saved' = Over(saved, dirty)
              /\ dirty' = NoWrites
              /\ res' = "ok"
              /\ UNCHANGED layers

Rollback == /\ dirty' = NoWrites
            /\ res' = "ok"
            /\ UNCHANGED <<layers, saved>>

Commit == IF IsDirty
          THEN res' = "dirty" /\ UNCHANGED <<layers, saved, dirty>>
          ELSE /\ Len(layers) < MaxLayers
               /\ layers' = Append(layers, Over(Committed, saved))
               /\ saved' = NoWrites
               /\ res' = "ok"
               /\ UNCHANGED dirty

Rewind(l) == /\ l \in 1..Len(layers)
             /\ IF IsDirty
                THEN res' = "dirty" /\ UNCHANGED <<layers, saved, dirty>>
                ELSE /\ layers' = SubSeq(layers, 1, l)
                     /\ saved' = NoWrites
                     /\ res' = "ok"
                     /\ UNCHANGED dirty

\* closing (or killing) the process and opening the database again
Reopen == /\ saved' = NoWrites
          /\ dirty' = NoWrites
          /\ res' = "ok"
          /\ UNCHANGED layers

\* the process dies while an operation is under way: the operation happened
\* entirely or not at all, and all pending writes are gone
CrashCommit == /\ ~IsDirty
               /\ saved' = NoWrites /\ dirty' = NoWrites
               /\ \/ layers' = layers /\ res' = "before"
                  \/ /\ Len(layers) < MaxLayers
                     /\ layers' = Append(layers, Over(Committed, saved))
                     /\ res' = "after"

CrashRewind(l) == /\ ~IsDirty
                  /\ l \in 1..Len(layers)
                  /\ saved' = NoWrites /\ dirty' = NoWrites
                  /\ \/ layers' = layers /\ res' = "before"
                     \/ layers' = SubSeq(layers, 1, l) /\ res' = "after"

Next == \/ \E k \in Keys, v \in Vals : Set(k, v)
        \/ Checkpoint
        \/ Rollback
        \/ Commit
        \/ \E l \in 1..MaxLayers : Rewind(l)
        \/ Reopen
        \/ CrashCommit
        \/ \E l \in 1..MaxLayers : CrashRewind(l)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)

\* S01: precedence of the three tiers
ReadLatest == \A k \in Keys :
   Latest[k] = IF dirty[k] # Absent THEN dirty[k]
               ELSE IF saved[k] # Absent THEN saved[k] ELSE Committed[k]

\* S02
DirtyRefused == [][(res' = "dirty") => UNCHANGED <<layers, saved, dirty>>]_vars
OneLayerAtATime == [][Len(layers') <= Len(layers) + 1]_vars

\* S03: a layer that survives a step is unchanged by it
Min(a, b) == IF a < b THEN a ELSE b
HistoryImmutable ==
   [][\A l \in 1..Min(Len(layers), Len(layers')) : layers'[l] = layers[l]]_vars

\* S03: keys never disappear going up the layers
Monotone == \A i, j \in 1..Len(layers) : i <= j =>
   \A k \in Keys : layers[j][k] = Absent => layers[i][k] = Absent

\* S04
RewindExact ==
   [][(Len(layers') < Len(layers)) =>
        /\ saved' = NoWrites /\ dirty' = NoWrites
        /\ layers' = SubSeq(layers, 1, Len(layers'))]_vars
=============================================================================
